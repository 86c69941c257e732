mod args;
mod auth;
mod entity;
mod limit;
mod gateway;
mod fresh;
mod sends;
mod gql;
mod gw;
mod headers;
mod hooks;
mod inject;
mod shape;
mod show;
mod loads;
mod mini;
mod model;
mod proto;
mod rest;
mod rpc;
mod spec;
mod up;
mod valid;
mod web;
#[path = "/verif/sim/comp/src/util.rs"]
#[allow(dead_code)]
mod util;

use gateway::{GatewayScenario, Profile};

fn main() {
    if std::env::args().nth(1).as_deref() == Some("spec") {
        return spec::main(&std::env::args().nth(2).expect("a directory"));
    }
    simrt::driver::main(&[
        &GatewayScenario { id: "C10", profile: Profile::Concurrent },
        &GatewayScenario { id: "C11", profile: Profile::Failures },
        &GatewayScenario { id: "C12", profile: Profile::Recovery },
        &GatewayScenario { id: "C13", profile: Profile::Mutations },
        &GatewayScenario { id: "C14", profile: Profile::Caching },
        &GatewayScenario { id: "C15", profile: Profile::NPlusOne },
        &GatewayScenario { id: "C16", profile: Profile::Isolation },
        &auth::AuthScenario,
        &proto::ProtoScenario { id: "C19", arrays: true },
        &proto::ProtoScenario { id: "C20", arrays: false },
        &rest::RestScenario,
        &headers::HeadersScenario,
        &web::WebScenario,
        &inject::InjectScenario,
        &shape::ShapeScenario("C24"),
        &shape::ShapeScenario("C25"),
        &loads::LoadScenario,
        &rpc::RpcScenario,
        &hooks::HookScenario,
        &entity::EntityScenario,
        &limit::LimitScenario,
        &args::ArgsScenario,
        &valid::ValidScenario,
        &gql::GqlScenario,
        &fresh::FreshScenario,
        &sends::SendsScenario,
        &show::ShowScenario,
    ]);
}
