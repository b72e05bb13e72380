mod h;
mod spec_gen;
mod sym;
