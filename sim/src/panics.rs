//! Panic bookkeeping: where did it come from?

use std::cell::RefCell;

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let text = format!("{loc}: {msg}");
        let _ = LAST.try_with(|l| *l.borrow_mut() = text);
    }));
}

/// Location and message of the last panic on this thread.
pub fn take() -> String {
    LAST.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Did the panic start in the simulator's own code (then it is a harness error)?
pub fn is_harness(text: &str) -> bool {
    let loc = text.split(": ").next().unwrap_or("");
    let file = loc.rsplit_once(':').map_or(loc, |x| x.0);
    file.starts_with("src/") || file.contains("/verif/sim/")
}
