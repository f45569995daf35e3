//! Wrapper transparency, recursion, reuse and sharing.
mod clones;
mod rec;
mod reuse;
mod wrapped;

fn main() {
    vcore::main(vec![wrapped::check(), rec::check(), reuse::check()]);
}
