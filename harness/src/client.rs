//! An established connection with the scripted server.
use crate::json::{self, J};
use crate::run;
use crate::world::*;
use rand::rngs::OsRng;

pub type Client = husk::TlsClient<Reader, Writer>;

const FLIGHT: &str = r#"[
 {"op":"hs","prot":"plain","rx":false,"pieces":[{"m":"sh_ok","part":"all","tam":"same"},{"m":"cert_one","part":"all","tam":"same"},{"m":"ske_ok","part":"all","tam":"same"},{"m":"shd_ok","part":"all","tam":"same"}]},
 {"op":"ccs_ok","prot":"plain","rx":false,"pieces":[]},
 {"op":"hs","prot":"good","rx":true,"pieces":[{"m":"fin_ok","part":"all","tam":"same"}]}]"#;

/// Err: what went wrong while connecting
pub fn connect(seed: u64, prm: &J) -> Result<(Shared, Client), String> {
    let w = World::new(seed, prm.clone());
    w.borrow_mut().ctam = "none".into();
    for e in json::parse(FLIGHT).arr() {
        w.borrow_mut().script.push_back(e.clone());
    }
    // ordinary transport while connecting
    let (rm, wm, ri, wi, eager);
    {
        let mut g = w.borrow_mut();
        rm = std::mem::replace(&mut g.rmode, 0);
        wm = std::mem::replace(&mut g.wmode, 0);
        ri = std::mem::replace(&mut g.rintr, false);
        wi = std::mem::replace(&mut g.wintr, false);
        eager = std::mem::replace(&mut g.eager, false);
    }
    let (r, x) = (Reader(w.clone()), Writer(w.clone()));
    match run::guarded(|| husk::TlsClient::new(r, x, OsRng)) {
        Err(m) => Err(format!("PANIC {}", m)),
        Ok(Err(e)) => Err(format!("{:?} {}", e.kind, e.desc)),
        Ok(Ok(c)) => {
            let mut g = w.borrow_mut();
            g.rmode = rm;
            g.wmode = wm;
            g.rintr = ri;
            g.wintr = wi;
            g.eager = eager;
            g.sticky_empty = false;
            g.dead_reads = 0;
            g.event = 0;
            drop(g);
            Ok((w, c))
        }
    }
}
