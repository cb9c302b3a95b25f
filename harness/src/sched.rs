//! Running code under the cooperative scheduler, with every scheduling decision a symbolic choice.
use crate::common::*;
use std::collections::HashMap;
use std::sync::Mutex;
use symrt::ctx::Mode;
use symrt::engine::eng;

static MODEL: Mutex<Option<HashMap<String, u64>>> = Mutex::new(None);

fn chooser(name: &str, n: usize) -> usize {
    if let Some(m) = &*MODEL.lock().unwrap_or_else(|e| e.into_inner()) {
        return (m.get(name).copied().unwrap_or(0) as usize).min(n - 1);
    }
    eng().choose(name, 0, n - 1)
}

/// Run `f` under all schedules with at most `preemptions` preemptions, data-parallel loops on
/// `workers` pool threads. Preemption points: lock operations, atomics, joins, and every
/// comparison of coordinates or distances. Returns the number of points passed as well.
pub fn scheduled<S: Scalar, R>(ctx: &mut Ctx<S>, preemptions: u64, workers: usize, fine: bool, f: impl FnOnce() -> R) -> R {
    *MODEL.lock().unwrap_or_else(|e| e.into_inner()) = (ctx.mode == Mode::Concrete).then(|| ctx.model.clone());
    vsched::set_chooser(chooser);
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            symrt::engine::on_branch(None);
            vsched::stop();
        }
    }
    let _e = End;
    vsched::start(ctx.desc.len(), preemptions, workers % 10);
    if workers >= 10 {
        // some of a larger pool: buffers per thread that are too few are then shared
        vsched::set_stride([1, 240, 256][ctx.choose("stride", 0, 2)]);
    }
    if fine {
        symrt::engine::on_branch(Some(vsched::point));
    }
    f()
}
