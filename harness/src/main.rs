mod engine;
mod generate;
mod lines;
mod model;
mod props;
mod real;
mod runner;
mod sut;
mod table;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;

fn main() {
    std::process::exit(runner::main());
}
