//! C17: one registry and one provider used by many threads at once.

use crate::c03::{self, Model};
use crate::c04;
use crate::repo::{self, Repo};
use crate::tags;
use crate::util::*;
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

/// Releases all threads at the same moment: they spin, so that none is still being woken up.
struct Gate {
    waiting: AtomicUsize,
    threads: usize,
}

impl Gate {
    fn new(threads: usize) -> Self {
        Gate { waiting: AtomicUsize::new(0), threads }
    }
    fn pass(&self) {
        self.waiting.fetch_add(1, Ordering::SeqCst);
        let mut n = 0u32;
        while self.waiting.load(Ordering::SeqCst) < self.threads {
            n += 1;
            if n % 256 == 0 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}

/// A number that grows with every step of every thread; the order in which threads took their numbers is the
/// interleaving that was observed.
struct Clock(AtomicU64);

impl Clock {
    fn tick(&self) -> u64 {
        self.0.fetch_add(1, Ordering::Relaxed)
    }
}

fn pause(rng: &mut Rng) {
    match rng.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..rng.below(400) {
                std::hint::spin_loop();
            }
        }
        2 if rng.chance(1, 20) => std::thread::sleep(std::time::Duration::from_micros(rng.below(80) as u64)),
        _ => {}
    }
}

struct Seen {
    ctx: Ctx,
    steps: Vec<u64>,
    tags: Vec<(String, Arc<LanguageTag>)>,
}

fn finish(ctx: &mut Ctx, seen: &[(usize, Vec<u64>)]) {
    // The interleaving: which thread took each step.
    let mut order: Vec<(u64, usize)> = seen.iter().flat_map(|(n, steps)| steps.iter().map(|s| (*s, *n))).collect();
    order.sort_unstable();
    let order: Vec<usize> = order.into_iter().map(|(_, n)| n).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    ctx.add("steps", order.len() as u64);
    ctx.add("switches_between_threads", switches as u64);
    if switches >= seen.len() {
        ctx.hit("interleaved_histories");
        ctx.distinct(&order);
    }
}

fn registry(ctx: &mut Ctx, rng: &mut Rng) {
    let registry = Arc::new(LanguageTagRegistry::new());
    let pool: Vec<String> = (0..rng.range(1, 4)).map(|_| tags::canonical(rng)).collect();
    let mut spellings: Vec<String> = pool.clone();
    for _ in 0..rng.range(0, 6) {
        let base = rng.pick(&pool).clone();
        spellings.push(tags::respell(rng, &base));
    }
    let threads = rng.range(2, 8);
    let steps = rng.range(1, 12);
    let gate = Gate::new(threads);
    let clock = Clock(AtomicU64::new(0));
    let same_start = rng.chance(1, 2);
    let start = rng.pick(&spellings).clone();
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    let parts: Vec<Result<Seen, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (registry, spellings, gate, clock, start) = (&registry, &spellings, &gate, &clock, &start);
                let mut seen = Seen { ctx: ctx.fork(), steps: Vec::new(), tags: Vec::new() };
                scope.spawn(move || {
                    let mut rng = Rng::new(*seed);
                    gate.pass();
                    guarded(|| {
                        for step in 0..steps {
                            if step > 0 {
                                pause(&mut rng);
                            }
                            seen.steps.push(clock.tick());
                            let spelled = if step == 0 && same_start { start } else { rng.pick(spellings) };
                            one(&mut seen, &mut rng, registry, spelled);
                        }
                        seen
                    })
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_string()))).collect()
    });
    let mut model = Model::default();
    let mut order = Vec::new();
    for (n, part) in parts.into_iter().enumerate() {
        let seen = match part {
            Ok(seen) => seen,
            Err(message) => {
                ctx.fail(format!("{message} with {threads} threads over {spellings:?}"));
                return;
            }
        };
        order.push((n, seen.steps));
        for (spelled, tag) in seen.tags {
            let canonical = tag.as_str().to_string();
            if spelled != canonical {
                model.deprecated.insert(spelled, canonical.clone());
            }
            match model.tags.get(&canonical) {
                Some(Some(known)) => {
                    ctx.hit("instances_compared");
                    if !Arc::ptr_eq(known, &tag) {
                        ctx.fail(format!("{threads} threads over {spellings:?} got two instances of {canonical}"));
                        return;
                    }
                }
                _ => {
                    model.tags.insert(canonical, Some(tag));
                }
            }
        }
        ctx.absorb(seen.ctx);
    }
    let history = format!("{threads} threads over {spellings:?}");
    c03::check_lists(ctx, &registry, &model, &history);
    // The same from one thread afterwards.
    for spelled in model.deprecated.keys().chain(model.tags.keys()) {
        let got = registry.tag(spelled).map(|t| t.as_str().to_string()).map_err(|e| e.to_string());
        ctx.check(got.as_ref().ok() == tags::canonicalise(spelled).as_ref(), || format!("{spelled:?} gives {got:?} after {history}"));
    }
    c03::check_lists(ctx, &registry, &model, &history);
    finish(ctx, &order);
    ctx.sample(|| history);
}

/// One step of one thread, with what that thread may rely on at that moment.
fn one(seen: &mut Seen, rng: &mut Rng, registry: &LanguageTagRegistry, spelled: &str) {
    seen.ctx.eval();
    match rng.below(10) {
        0 => {
            let m = ["", "e", "en--US", "1", "en_", "abcdefghi", "en-US-US"][rng.below(7)];
            let result = registry.tag(m);
            seen.ctx.check(result.is_err(), || format!("malformed tag {m:?} accepted"));
            seen.ctx.hit("malformed");
        }
        1 if !seen.tags.is_empty() => {
            let tag = &rng.pick(&seen.tags).1;
            let icu = registry.icu_language(tag);
            seen.ctx.check(icu.to_string() == tag.as_str(), || format!("the ICU language of {} is {icu}", tag.as_str()));
            seen.ctx.hit("icu_language");
        }
        2 => {
            let (list, what) = match rng.below(3) {
                0 => (registry.list(), "list"),
                1 => (registry.list_all(), "list_all"),
                _ => (registry.list_deprecated(), "list_deprecated"),
            };
            let texts: Vec<&str> = list.iter().map(|t| t.as_str()).collect();
            for (spelled, tag) in &seen.tags {
                let wanted = if what == "list_deprecated" { spelled != tag.as_str() } else { true };
                seen.ctx.check(!wanted || texts.contains(&tag.as_str()), || {
                    format!("{what} does not hold {} requested before as {spelled:?}: {texts:?}", tag.as_str())
                });
            }
            if what == "list" {
                let unique: BTreeSet<&&str> = texts.iter().collect();
                seen.ctx.check(unique.len() == texts.len(), || format!("list holds a tag twice: {texts:?}"));
            }
            seen.ctx.hit("lists");
        }
        _ => {
            let expected = tags::canonicalise(spelled);
            let got = registry.tag(spelled);
            match got {
                Ok(tag) => {
                    let text = tag.as_str().to_string();
                    seen.ctx.check(Some(&text) == expected.as_ref(), || format!("{spelled:?} gives {text}, expected {expected:?}"));
                    seen.tags.push((spelled.to_string(), tag));
                }
                Err(e) => seen.ctx.fail(format!("{spelled:?} gives the error {e}")),
            }
            seen.ctx.hit("tags");
        }
    }
}

fn provider(ctx: &mut Ctx, rng: &mut Rng) {
    let repo = Repo::generate(rng);
    let directory = c04::written(ctx, &repo);
    let before = repo::snapshot(&directory);
    let o = match repo::open(&directory, rng) {
        Ok(o) => o,
        Err(e) => {
            ctx.fail(format!("a conforming repository does not open: {e} in {}", repo.describe()));
            return;
        }
    };
    let model = c04::model(&repo);
    let threads = rng.range(2, 8);
    let steps = rng.range(1, 8);
    let gate = Gate::new(threads);
    let clock = Clock(AtomicU64::new(0));
    // All lookups, all details, or both.
    let details = rng.below(5);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    let same = rng.chance(1, 2);
    let parts: Vec<Result<(Ctx, Vec<u64>), String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (repo, o, model, gate, clock) = (&repo, &o, &model, &gate, &clock);
                let first = seeds[0];
                let mut part = ctx.fork();
                scope.spawn(move || {
                    // Either every thread asks for the same things, or each for others.
                    let mut rng = Rng::new(if same { first } else { *seed });
                    let mut steps_taken = Vec::new();
                    gate.pass();
                    guarded(|| {
                        for step in 0..steps {
                            if step > 0 {
                                pause(&mut rng);
                            }
                            steps_taken.push(clock.tick());
                            if rng.below(5) < details {
                                c04::details(&mut part, &mut rng, repo, o, model);
                            } else {
                                c04::lookup(&mut part, &mut rng, repo, o);
                            }
                        }
                        (part, steps_taken)
                    })
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_string()))).collect()
    });
    let mut order = Vec::new();
    for (n, part) in parts.into_iter().enumerate() {
        match part {
            Ok((part, steps)) => {
                ctx.absorb(part);
                order.push((n, steps));
            }
            Err(message) => {
                ctx.fail(format!("{message} with {threads} threads on {}", repo.describe()));
                return;
            }
        }
    }
    finish(ctx, &order);
    // Afterwards, alone: the same answers still.
    for _ in 0..2 {
        c04::lookup(ctx, rng, &repo, &o);
        c04::details(ctx, rng, &repo, &o, &model);
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for t in o.registry.list() {
        *seen.entry(t.as_str().to_string()).or_default() += 1;
    }
    ctx.check(seen.values().all(|n| *n == 1), || format!("the registry lists a tag twice: {seen:?}"));
    let same_files = repo::snapshot(&directory) == before;
    ctx.check(same_files, || "the directory changed".to_string());
    let _ = std::fs::remove_dir_all(&directory);
}

/// Only tags, again and again the moment when a tag is first registered.
fn first_moment(ctx: &mut Ctx, rng: &mut Rng) {
    let threads = rng.range(2, 6);
    let rounds = 60;
    let pool: Vec<(String, String)> = (0..rounds)
        .map(|_| {
            let c = tags::canonical(rng);
            let s = tags::respell(rng, &c);
            (c, s)
        })
        .collect();
    let registry = LanguageTagRegistry::new();
    let gates: Vec<Gate> = (0..rounds).map(|_| Gate::new(threads)).collect();
    let results: Vec<Vec<Option<Arc<LanguageTag>>>> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|n| {
                let (registry, pool, gates) = (&registry, &pool, &gates);
                let mut rng = Rng::new(rng.next());
                scope.spawn(move || {
                    let mut out = Vec::new();
                    for (round, (canonical, spelled)) in pool.iter().enumerate() {
                        gates[round].pass();
                        for _ in 0..rng.below(30) {
                            std::hint::spin_loop();
                        }
                        let text = if n % 2 == 0 { canonical } else { spelled };
                        out.push(guarded(|| registry.tag(text).ok()).ok().flatten());
                    }
                    out
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut model = Model::default();
    for (round, (canonical, spelled)) in pool.iter().enumerate() {
        for (n, list) in results.iter().enumerate() {
            ctx.eval();
            let text = if n % 2 == 0 { canonical } else { spelled };
            let Some(Some(tag)) = list.get(round) else {
                ctx.fail(format!("no answer for {text:?} when {threads} threads ask at once"));
                return;
            };
            ctx.check(tag.as_str() == canonical, || format!("{text:?} gives {}", tag.as_str()));
            if text != canonical {
                model.deprecated.insert(text.clone(), canonical.clone());
            }
            match model.tags.get(canonical) {
                Some(Some(known)) => {
                    ctx.hit("instances_compared");
                    ctx.check(Arc::ptr_eq(known, tag), || format!("two instances of {canonical} when {threads} threads ask at once"));
                }
                _ => {
                    model.tags.insert(canonical.clone(), Some(Arc::clone(tag)));
                }
            }
        }
    }
    c03::check_lists(ctx, &registry, &model, &format!("{threads} threads, {rounds} tags each at once"));
    // Once every ICU language is known, all threads are given that one.
    let known: Vec<_> = results[0].iter().flatten().map(|tag| (tag, registry.icu_language(tag))).collect();
    let gate = Gate::new(threads);
    let wrong: Vec<String> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|_| {
                let (registry, known, gate) = (&registry, &known, &gate);
                scope.spawn(move || {
                    gate.pass();
                    let other = |(tag, icu): &&(&Arc<LanguageTag>, Arc<_>)| !Arc::ptr_eq(&registry.icu_language(tag), icu);
                    known.iter().filter(other).map(|(tag, _)| tag.as_str().to_string()).collect::<Vec<_>>()
                })
            })
            .collect();
        handles.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["(a thread panicked)".to_string()])).collect()
    });
    ctx.eval();
    ctx.add("icu_instances_compared", (known.len() * threads) as u64);
    ctx.check(wrong.is_empty(), || format!("{threads} threads were given other ICU languages than those known, for {wrong:?}"));
}

pub fn run(ctx: &mut Ctx) {
    let tsan = cfg!(feature = "tsan");
    let scale = |n: u64| if tsan { n / 6 } else { n };
    ctx.phase("first", scale(1_200), scale(20_000), |ctx, rng, _| first_moment(ctx, rng));
    ctx.phase("registry", scale(12_000), scale(300_000), |ctx, rng, _| registry(ctx, rng));
    ctx.phase("provider", scale(3_000), scale(60_000), |ctx, rng, _| provider(ctx, rng));
}
