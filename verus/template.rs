//@include head.rs
verus!{
pub type Text = Seq<u8>;

//@include prelude.rs
//@const sudo_pair/src/template.rs DEFAULT_ESCAPE_BYTE
//@struct sudo_pair/src/template.rs Spec
pub open spec fn one(m: Map<u8, Seq<u8>>, b: u8) -> Seq<u8> { if m.dom().contains(b) { m[b] } else { seq![b] } }
pub open spec fn expansion(e: u8, m: Map<u8, Seq<u8>>, t: Seq<u8>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { seq![] }
    else if t[0] != e { seq![t[0]] + expansion(e, m, t.skip(1)) }
    else if t.len() == 1 { seq![] }
    else { one(m, t[1]) + expansion(e, m, t.skip(2)) }
}
proof fn literal(e: u8, m: Map<u8, Seq<u8>>, t: Seq<u8>, n: int)
    requires 0 <= n <= t.len(), forall|i: int| 0 <= i < n ==> t[i] != e
    ensures expansion(e, m, t) == t.take(n) + expansion(e, m, t.skip(n))
    decreases n
{
    if n == 0 { assert(t.take(0) =~= seq![]); assert(t.skip(0) =~= t); assert(seq![] + expansion(e,m,t) =~= expansion(e,m,t)); }
    else {
        literal(e, m, t.skip(1), n - 1);
        assert(t.skip(1).skip(n - 1) =~= t.skip(n));
        assert(seq![t[0]] + t.skip(1).take(n - 1) =~= t.take(n));
        assert(expansion(e, m, t) =~= t.take(n) + expansion(e, m, t.skip(n)));
    }
}

impl Spec {
//@fn sudo_pair/src/template.rs Spec::expand
//@pub
//@rename iter v_iter
//@rename extend v_extend
//@closure 0 b: &u8 -> bool
//@spec
        ensures result@ == expansion(self.escape, self.expansions@, template@),
//@loop 0
            invariant_except_break result@ + expansion(self.escape, self.expansions@, iter@) == expansion(self.escape, self.expansions@, template@),
            ensures result@ == expansion(self.escape, self.expansions@, template@),
            decreases iter@.len(),
//@before result . v_extend (
            let ghost b0 = result@;
            let ghost i0 = iter@;
//@before let byte
            proof {
                let n = (result@.len() - b0.len()) as int;
                assert(result@ == b0 + i0.take(n));
                assert(forall|i: int| 0 <= i < n ==> #[trigger] i0[i] != self.escape);
                literal(self.escape, self.expansions@, i0, n);
                assert(n < i0.len() ==> i0.skip(n)[0] == self.escape);
                assert(i0.skip(n).len() > 1 ==> i0.skip(n)[1] == iter@[0]);
                if iter@.len() > 0 { assert(i0.skip(n).skip(2) =~= iter@.skip(1)); }
                assert(expansion(self.escape, self.expansions@, template@) =~= result@ + expansion(self.escape, self.expansions@, i0.skip(n)));
                if iter@.len() == 0 {
                    assert(expansion(self.escape, self.expansions@, template@) =~= result@);
                } else {
                assert(expansion(self.escape, self.expansions@, template@) =~= (result@ + one(self.expansions@, iter@[0])) + expansion(self.escape, self.expansions@, iter@.skip(1)));
}
            }

//@end

//@fn sudo_pair/src/template.rs Default for Spec::default
//@pub
//@spec
        ensures result.escape == 37, result.expansions@ == Map::<u8, Seq<u8>>::empty(),
//@end

//@fn sudo_pair/src/template.rs Spec::new
//@pub
//@spec
        ensures result.escape == 37, result.expansions@ == Map::<u8, Seq<u8>>::empty(),
//@end

//@fn sudo_pair/src/template.rs Spec::with_escape
//@pub
//@spec
        ensures result.escape == escape, result.expansions@ == Map::<u8, Seq<u8>>::empty(),
//@end

//@fn sudo_pair/src/template.rs From for Spec::from
//@pub
//@spec
        ensures result.escape == 37, result.expansions@ == expansions@,
//@end

//@fn sudo_pair/src/template.rs Spec::replace
//@pub
//@subst Into<Vec<u8>> => VInto
//@rename into v_into
//@spec
        ensures final(self).escape == old(self).escape, final(self).expansions@ == old(self).expansions@.insert(literal, replacement.text()),
//@end
}
}
fn main(){}
