mod h;
mod rt;
mod spec_gen;
mod sym;
fn main() {
    rt::main(h::ENTRIES)
}
