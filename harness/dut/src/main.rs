mod adapt;
mod alloc;
mod corpus;
mod cx;
mod dut;
mod javagen;
mod props;
mod run;
#[cfg(feature = "threadsafe")]
mod thr;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    run::main()
}
