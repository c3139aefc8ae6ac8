//! Replays handshake behaviours of Handshake.tla into husk::TlsClient.
fn main() {
    husk_verif::run::main(husk_verif::hstest::test);
}
