# ---- C30: tstack, instantiated with intmod_t
@fn inst::tstack<spffl::intmath::intmod_t>::tstack()
@ensures skok(ret), skv(ret) == Seq::<intmod_t>::empty()
@exit assert(skv(ret) =~= Seq::<intmod_t>::empty());
@fn inst::tstack<spffl::intmath::intmod_t>::tstack(const tstack<intmod_t> &)
@requires skok(*that)
@ensures skok(ret), skv(ret) == skv(*that)
@loop 0
@inv 0 <= i <= that.freeidx, skok(*that), this.elements.st is Live, this.elements.v@.len() == that.num_allocated, this.num_allocated == that.num_allocated, this.freeidx == that.freeidx, sameto(this.elements.v@, that.elements.v@, i as int)
@dec that.freeidx - i
@exit assert(skv(ret) =~= skv(*that));
@fn inst::tstack<spffl::intmath::intmod_t>::operator=(const tstack<intmod_t> &)
@requires skok(*old(this)), skok(*that)
@ensures skok(*final(this)), skv(*final(this)) == skv(*that)
@loop 0
@inv 0 <= i <= that.freeidx, skok(*that), this.elements.st is Live, this.elements.v@.len() == that.num_allocated, this.num_allocated == that.num_allocated, this.freeidx == that.freeidx, sameto(this.elements.v@, that.elements.v@, i as int)
@dec that.freeidx - i
@exit assert(skv(*this) =~= skv(*that));
@fn inst::tstack<spffl::intmath::intmod_t>::push(const spffl::intmath::intmod_t &)
@requires skok(*old(this)), skroom(*old(this))
@ensures skok(*final(this)), skv(*final(this)) == skv(*old(this)).push(*re), final(this).num_allocated <= old(this).num_allocated + 10, old(this).freeidx < old(this).num_allocated ==> final(this).num_allocated == old(this).num_allocated
@loop 0
@inv 0 <= i <= this.freeidx, this.freeidx == old(this).freeidx, temp.st is Live, temp.v@ == old(this).elements.v@, this.elements.st is Live, this.elements.v@.len() == this.num_allocated, this.num_allocated == old(this).num_allocated + 10, sameto(this.elements.v@, old(this).elements.v@, i as int), old(this).freeidx == old(this).num_allocated
@dec this.freeidx - i
@exit assert(skv(*this) =~= skv(*old(this)).push(*re));
@fn inst::tstack<spffl::intmath::intmod_t>::pop(spffl::intmath::intmod_t &)
@requires skok(*old(this))
@ensures skok(*final(this)), ret == (skv(*old(this)).len() > 0), ret ==> *final(re) == skv(*old(this)).last() && skv(*final(this)) == skv(*old(this)).drop_last(), !ret ==> *final(re) == *old(re) && skv(*final(this)) == skv(*old(this)), final(this).num_allocated == old(this).num_allocated
@exit assert(old(this).freeidx > 0 ==> skv(*this) =~= skv(*old(this)).drop_last());
