mod dedupe;
mod httpcache;
mod loader;
mod ttl;
mod util;

fn main() {
    simrt::driver::main(&[
        &dedupe::DedupeScenario { id: "C01", liveness: false },
        &dedupe::DedupeScenario { id: "C02", liveness: true },
        &loader::LoaderScenario { id: "C03", cache: false, discipline: false },
        &loader::LoaderScenario { id: "C04", cache: false, discipline: true },
        &loader::LoaderScenario { id: "C05", cache: true, discipline: false },
        &ttl::TtlScenario,
        &httpcache::HttpCacheScenario,
    ]);
}
