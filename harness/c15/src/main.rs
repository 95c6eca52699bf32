use fmcore::report::Ctx;
fn main() {
    let mut c = Ctx::new("C15", "model_checking");
    c.rule = "the space of enum declarations enumerated as programs (every sequence of variant kinds up to a length, every number of field-less variants up to 67 and around the integer widths, every single-payload position, orders of explicit discriminants, representations, identifiers, nesting depths), each compiled with the real derive; per declaration every subset of keys in every insertion order (large: structured), each key then individually removed, inserted and replaced, the whole contents compared after every step, for maps and sets".into();
    macro_rules! go { ($($z:ident)*) => { $( $z::jobs(&mut c); )* } }
    go!(fmcheck_z0 fmcheck_z1 fmcheck_z2 fmcheck_z3 fmcheck_z4 fmcheck_z5 fmcheck_z6 fmcheck_z7);
    c.finish()
}
