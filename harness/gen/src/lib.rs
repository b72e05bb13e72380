mod h;
mod interp;
mod spec_gen;
mod sym;
