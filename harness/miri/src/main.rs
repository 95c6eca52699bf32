fn main() { fmcheck_miri::main() }
