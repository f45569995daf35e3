//! Conversions (C13), span stores (C18) and the context cursor (C19) against plain models.
mod conv;
mod cursor;
mod store;

fn main() {
    vcore::main(vec![conv::check(), store::check(), cursor::check()]);
}
