impl AddSpecImpl<Period> for Date {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, p: Period) -> bool { wf(self) && movable(self.s(), p.length as int, p.unit) }
    open spec fn add_spec(self, p: Period) -> Date { day(plus(self.s(), p.length as int, p.unit)) }
}
impl Add<Period> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, p: Period) -> Date { unimplemented!() }
}
impl SubSpecImpl<Period> for Date {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, p: Period) -> bool { wf(self) && movable(self.s(), -p.length as int, p.unit) }
    open spec fn sub_spec(self, p: Period) -> Date { day(plus(self.s(), -p.length as int, p.unit)) }
}
impl Sub<Period> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn sub(self, p: Period) -> Date { unimplemented!() }
}
