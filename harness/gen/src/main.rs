mod h;
mod interp;
mod spec_gen;
mod rt;
mod sym;
fn main() {
    rt::main(h::ENTRIES)
}
