// facts about the tables of log2.cpp / count_bits.cpp
pub proof fn lemma_ones_table() ensures forall|i: int| 0 <= i < 256 ==> #[trigger] tbls_byte_num_one_bits(i) == popcount(i)
{
    assert forall|i: int| 0 <= i < 256 implies #[trigger] tbls_byte_num_one_bits(i) == popcount(i) by { lemma_ones_table_chk(256); lemma_ones_get(i, 256); }
}
pub open spec fn ones_chk(n: int) -> bool decreases n { if n <= 0 { true } else { tbls_byte_num_one_bits(n - 1) == popcount(n - 1) && ones_chk(n - 1) } }
pub proof fn lemma_ones_table_chk(n: int) requires n == 256 ensures ones_chk(n) { assert(ones_chk(256)) by(compute_only); }
pub proof fn lemma_ones_get(i: int, n: int) requires 0 <= i < n, ones_chk(n) ensures tbls_byte_num_one_bits(i) == popcount(i) decreases n
{ if i < n - 1 { lemma_ones_get(i, n - 1); } }
