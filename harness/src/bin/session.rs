//! Replays behaviours of Session.tla on an established connection.
fn main() {
    husk_verif::run::main(husk_verif::sessiontest::test);
}
