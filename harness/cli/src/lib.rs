mod cli;
mod fsys;
mod h;
mod sym;
