@item stages::Stage
pub trait Stage {
    type Output: ?Sized;
    // the items that the stage reports at its end
    spec fn out_view(o: &Self::Output) -> Seq<u32>;
    spec fn view_out(&self) -> Seq<u32>;
    fn output(&self) -> (r: &Self::Output) ensures Self::out_view(r) == self.view_out();
}
@item stages::FeatureVectorConsumer
pub trait FeatureVectorConsumer: Stage {
    // everything that does not change after creation
    type Cfg;
    spec fn cfg(&self) -> Self::Cfg;
    spec fn len_ok(n: nat) -> bool;
    spec fn inv(&self) -> bool;
    spec fn seen(&self) -> int;
    // the state is the one reached from a new or reset consumer by consuming exactly the rows h
    spec fn repr(&self, h: Seq<Seq<real>>) -> bool;
    // what a consumer of this configuration reports after the rows h
    spec fn out_of(cfg: Self::Cfg, h: Seq<Seq<real>>) -> Seq<u32>;
    proof fn lemma_out(&self, h: Seq<Seq<real>>)
        requires self.repr(h)
        ensures self.inv(), self.view_out() == Self::out_of(self.cfg(), h), self.seen() <= h.len();
    fn consume(&mut self, features: &[Real])
        requires old(self).inv(), Self::len_ok(features@.len()), 0 <= old(self).seen() < SEEN_MAX,
        ensures final(self).inv(), final(self).cfg() == old(self).cfg(), 0 <= final(self).seen() <= old(self).seen() + 1,
            forall|h: Seq<Seq<real>>| old(self).repr(h) ==> #[trigger] final(self).repr(h.push(rvs(features@)));
    fn reset(&mut self)
        requires old(self).inv(),
        ensures final(self).inv(), final(self).cfg() == old(self).cfg(), final(self).seen() == 0, final(self).repr(Seq::empty());
}
@item stages::AudioConsumer
pub trait AudioConsumer<T = i16>: Stage {
    type ACfg;
    spec fn acfg(&self) -> Self::ACfg;
    spec fn ainv(&self) -> bool;
    spec fn reset_ok(&self) -> bool;
    spec fn data_ok(&self, n: nat) -> bool;
    // bound on what the stages behind have received, and on how much of it one sample can cause
    spec fn aseen(&self) -> int;
    spec fn aw() -> int;
    proof fn lemma_aw() ensures Self::aw() >= 1;
    // the state is the one reached from a new or reset consumer by consuming exactly x, in whatever pieces
    spec fn arepr(&self, x: Seq<T>) -> bool;
    spec fn aout_of(cfg: Self::ACfg, x: Seq<T>) -> Seq<u32>;
    proof fn lemma_aout(&self, x: Seq<T>)
        requires self.arepr(x)
        ensures self.ainv(), self.view_out() == Self::aout_of(self.acfg(), x);
    fn reset(&mut self)
        requires old(self).ainv(), old(self).reset_ok(),
        ensures final(self).ainv(), final(self).acfg() == old(self).acfg(), final(self).aseen() == 0, final(self).arepr(Seq::empty()), final(self).reset_ok(),
            forall|n: nat| old(self).data_ok(n) ==> #[trigger] final(self).data_ok(n);
    fn consume(&mut self, data: &[T])
        requires old(self).ainv(), old(self).data_ok(data@.len()), 0 <= old(self).aseen(), old(self).aseen() + data@.len() * Self::aw() < SEEN_MAX,
        ensures final(self).ainv(), final(self).acfg() == old(self).acfg(), 0 <= final(self).aseen() <= old(self).aseen() + data@.len() * Self::aw(),
            forall|n: nat| old(self).data_ok(n) ==> #[trigger] final(self).data_ok(n), final(self).reset_ok() == old(self).reset_ok(),
            forall|x: Seq<T>| old(self).arepr(x) ==> #[trigger] final(self).arepr(x + data@);
    fn flush(&mut self)
        requires old(self).ainv(),
        ensures final(self).ainv(), final(self).acfg() == old(self).acfg(), final(self).aseen() == old(self).aseen(),
            forall|n: nat| old(self).data_ok(n) ==> #[trigger] final(self).data_ok(n), final(self).reset_ok() == old(self).reset_ok(),
            forall|x: Seq<T>| old(self).arepr(x) ==> #[trigger] final(self).arepr(x);
}
