mod cli;
mod fsys;
mod h;
mod rt;
mod sym;
fn main() {
    rt::main(h::ENTRIES)
}
