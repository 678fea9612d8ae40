impl Date {
    #[verifier::external_body]
    pub fn serial_number(&self) -> (r: i32)
        ensures r == self.serial_number,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: Month)
        requires wf(*self),
        ensures month_number(r) == month_of(self.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32)
        requires wf(*self),
        ensures r == year_of(self.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn day_of_month(&self) -> (r: u32)
        requires wf(*self),
        ensures r == dom_of(self.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn weekday(&self) -> (r: Weekday)
        requires wf(*self),
        ensures r == weekday_at(self.s()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end_of_month(&self) -> (r: Date)
        requires wf(*self),
        ensures r.s() == last_of(mi(self.s())),
    { unimplemented!() }
}
