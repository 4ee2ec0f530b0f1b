//! Thread-local log of what is appended to and drawn from a `DefaultTranscript`.
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Append(Vec<u8>),
    Challenge([u8; 32]),
}

thread_local! {
    /// (index of the challenge since `start`, value returned instead)
    static FORCED: RefCell<Vec<(usize, [u8; 32])>> = const { RefCell::new(Vec::new()) };
    static COUNT: RefCell<usize> = const { RefCell::new(0) };
    static LOG: RefCell<Option<Vec<Event>>> = RefCell::new(None);
}

/// From the next `start` on, challenge number `index` is `value`.
pub fn force(values: Vec<(usize, [u8; 32])>) {
    FORCED.with(|f| *f.borrow_mut() = values);
}

/// The challenge to hand out for a drawn one.
pub(crate) fn forced(drawn: [u8; 32]) -> [u8; 32] {
    let active = LOG.with(|l| l.borrow().is_some());
    if !active {
        return drawn;
    }
    let i = COUNT.with(|c| {
        let mut c = c.borrow_mut();
        *c += 1;
        *c - 1
    });
    FORCED.with(|f| f.borrow().iter().find(|(k, _)| *k == i).map_or(drawn, |(_, v)| *v))
}

pub fn start() {
    COUNT.with(|c| *c.borrow_mut() = 0);
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
}

pub fn take() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

pub(crate) fn on_append(data: &[u8]) {
    LOG.with(|l| {
        if let Some(log) = l.borrow_mut().as_mut() {
            log.push(Event::Append(data.to_vec()));
        }
    });
}

pub(crate) fn on_challenge(data: &[u8; 32]) {
    LOG.with(|l| {
        if let Some(log) = l.borrow_mut().as_mut() {
            log.push(Event::Challenge(*data));
        }
    });
}
