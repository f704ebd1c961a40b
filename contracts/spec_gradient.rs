// central differences, one-sided at both ends
pub open spec fn grad_spec(v: Seq<real>) -> Seq<real> {
    Seq::new(v.len(), |i: int|
        if v.len() == 1 { 0real }
        else if i == 0 { v[1] - v[0] }
        else if i == v.len() - 1 { v[i] - v[i - 1] }
        else { r_div(v[i + 1] - v[i - 1], 2real) })
}
