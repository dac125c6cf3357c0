//! Stand-in for the part of indicatif that the extension uses: shows nothing.
extern crate console;
use std::borrow::Cow;
#[derive(Clone, Debug)] pub struct ProgressBar;
#[derive(Clone, Debug)] pub struct ProgressStyle;
#[derive(Debug)] pub struct ProgressDrawTarget;
#[derive(Debug)] pub struct TemplateError;
impl ProgressDrawTarget {
    pub fn term(_t: console::Term, _hz: u8) -> Self { ProgressDrawTarget }
    pub fn hidden() -> Self { ProgressDrawTarget }
    pub fn stdout() -> Self { ProgressDrawTarget }
    pub fn stderr() -> Self { ProgressDrawTarget }
}
impl ProgressStyle {
    pub fn with_template(_s: &str) -> Result<Self, TemplateError> { Ok(ProgressStyle) }
    pub fn default_bar() -> Self { ProgressStyle }
    pub fn progress_chars(self, _s: &str) -> Self { self }
}
impl ProgressBar {
    pub fn with_draw_target(_n: Option<u64>, _t: ProgressDrawTarget) -> Self { ProgressBar }
    pub fn new(_n: u64) -> Self { ProgressBar }
    pub fn hidden() -> Self { ProgressBar }
    pub fn set_style(&self, _s: ProgressStyle) {}
    pub fn set_position(&self, _n: u64) {}
    pub fn set_length(&self, _n: u64) {}
    pub fn inc(&self, _n: u64) {}
    pub fn tick(&self) {}
    pub fn set_message<'a, S: Into<Cow<'a, str>>>(&self, _s: S) {}
    pub fn abandon_with_message<'a, S: Into<Cow<'a, str>>>(&self, _s: S) {}
    pub fn finish_with_message<'a, S: Into<Cow<'a, str>>>(&self, _s: S) {}
    pub fn abandon(&self) {}
    pub fn finish(&self) {}
    pub fn finish_and_clear(&self) {}
}
