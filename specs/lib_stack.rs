// ---- a stack: the first freeidx cells of live storage of num_allocated cells
pub open spec fn skok(x: tstack_intmod_t) -> bool { x.elements.st is Live && 0 <= x.freeidx <= x.num_allocated && 1 <= x.num_allocated && x.num_allocated == x.elements.v@.len() }
pub open spec fn skv(x: tstack_intmod_t) -> Seq<intmod_t> { x.elements.v@.subrange(0, x.freeidx as int) }
pub open spec fn sameto(a: Seq<intmod_t>, b: Seq<intmod_t>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] a[k] == b[k] }
// capacity bound: the element count stays an int
pub open spec fn skroom(x: tstack_intmod_t) -> bool { x.num_allocated < 0x7fff_fff0 }
