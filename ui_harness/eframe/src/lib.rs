//! Stand-in for eframe: the traits and types an app implements, without window, event loop or
//! renderer. The monitor owns the event loop.
pub use egui;
pub use egui::emath;
pub use egui::epaint;

pub const APP_KEY: &str = "app";

#[derive(Default)]
pub struct Frame {
    _p: (),
}
impl Frame {
    pub fn _new_kittest() -> Self {
        Frame { _p: () }
    }
    pub fn storage(&self) -> Option<&dyn Storage> {
        None
    }
}

pub trait Storage {
    fn get_string(&self, key: &str) -> Option<String>;
    fn set_string(&mut self, key: &str, value: String);
    fn flush(&mut self);
}

pub fn get_value<T: serde::de::DeserializeOwned>(storage: &dyn Storage, key: &str) -> Option<T> {
    storage.get_string(key).and_then(|v| serde_json::from_str(&v).ok())
}
pub fn set_value<T: serde::Serialize>(storage: &mut dyn Storage, key: &str, value: &T) {
    if let Ok(s) = serde_json::to_string(value) {
        storage.set_string(key, s);
    }
}

pub struct CreationContext<'s> {
    pub egui_ctx: egui::Context,
    pub storage: Option<&'s dyn Storage>,
}
impl CreationContext<'_> {
    pub fn _new_kittest(egui_ctx: egui::Context) -> Self {
        CreationContext { egui_ctx, storage: None }
    }
}

pub trait App {
    fn update(&mut self, ctx: &egui::Context, frame: &mut Frame);
    fn save(&mut self, _storage: &mut dyn Storage) {}
}
