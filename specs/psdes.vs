# ---- C22: the pseudo-DES mixer
@fn bitrand::psdes_hash_64(uint32_t &, uint32_t &)
@ensures (*final(word0), *final(word1)) == feist(4, *old(word0), *old(word1))
@loop 0
@inv 0 <= i <= 4, (*word0, *word1) == feist(i as nat, *old(word0), *old(word1))
@dec 4 - i
@end assert(ia == iswap ^ k1(i as int)); assert(*word0 == iswap); assert(ib == addw(mulw(ial, ial), !mulw(iah, iah))); assert(ic == swap16(ib)); assert(addw(ic ^ k2(i as int), mulw(ial, iah)) == rf(i as int, iswap)); lemma_feist_step(i as nat, *old(word0), *old(word1));
@fn bitrand::iran32_r(uint32_t &, uint32_t &)
@ensures ret == feist(4, *old(state0), *old(state1)).1, (*final(state0), *final(state1)) == ctr(*old(state0), *old(state1))
@fn bitrand::iran64_r(uint32_t &, uint32_t &, uint32_t &, uint32_t &)
@ensures (*final(out0), *final(out1)) == feist(4, *old(state0), *old(state1)), (*final(state0), *final(state1)) == ctr(*old(state0), *old(state1))
