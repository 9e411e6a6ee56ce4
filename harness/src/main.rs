#[global_allocator]
static ALLOC: hz::sut::Counting = hz::sut::Counting;
fn main() { hz::cli::run() }
