//! Stand-in for `expect-test` (compares, never updates).
pub struct Expect { pub data: &'static str, pub indent: bool }
#[macro_export]
macro_rules! expect { [[$data:literal]] => { $crate::Expect { data: $data, indent: true } }; [$data:literal] => { $crate::Expect { data: $data, indent: true } }; [] => { $crate::Expect { data: "", indent: true } }; [[]] => { $crate::Expect { data: "", indent: true } }; }
impl Expect {
    pub fn indent(self, indent: bool) -> Self { Expect { data: self.data, indent } }
    pub fn data(&self) -> &str { self.data }
    pub fn assert_eq(&self, actual: &str) {
        let e = self.trimmed();
        if e != actual { panic!("expected:\n{e}\nactual:\n{actual}\n"); }
    }
    pub fn assert_debug_eq(&self, actual: &impl std::fmt::Debug) { self.assert_eq(&format!("{actual:#?}\n")) }
    fn trimmed(&self) -> String {
        if !self.data.contains('\n') || !self.indent { return self.data.to_string(); }
        let mut text = self.data;
        if text.starts_with('\n') { text = &text[1..]; }
        let indent = text.lines().filter(|it| !it.trim().is_empty()).map(|it| it.len() - it.trim_start().len()).min().unwrap_or(0);
        text.split_inclusive('\n').map(|l| if l.len() <= indent { l.trim_start_matches(' ') } else { &l[indent..] }).collect()
    }
}
