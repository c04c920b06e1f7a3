use crate::cx::Prop;

pub mod blend;
pub mod damage;
#[cfg(not(target_arch = "wasm32"))]
pub mod fleet;
pub mod hierarchy;
pub mod jobs;
pub mod load;
pub mod memory;
pub mod peers;
pub mod sampling;
pub mod scalar;
pub mod skin;
pub mod snapshot;
pub mod solve;
#[cfg(not(target_arch = "wasm32"))]
pub mod threads;
pub mod track;

pub const ALL: &[&Prop] = &[&sampling::C01, &sampling::C02, &track::C12, &track::C13, &blend::C14, &hierarchy::C15, &skin::C16,
    &load::C08,
    &load::C09,
    &load::C10,
    &memory::C11,
    &snapshot::C03,
    &jobs::C17,
    &jobs::C07,
    &jobs::C06,
    #[cfg(not(target_arch = "wasm32"))]
    &threads::C05,
    &damage::C20,
    &peers::C04,
    &solve::C18,
    #[cfg(not(target_arch = "wasm32"))]
    &fleet::C19,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().chain([&scalar::MATH]).find(|p| p.id == id)
}
