//! A format that permits everything, says what it is told to say, and notes what it is asked.
use serdere::{Deserializer, NameMap, Outliner, Serializer};
use serdere_json::{CollectionType, JsonDeserializer, JsonOutliner, JsonSerializer, ValueType};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Debug)]
pub enum Stop {
    /// the program is over
    End,
    Custom(String),
}
impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Stop {}
pub type R<T> = Result<T, Stop>;

/// What the mock shares with the program.
#[derive(Default)]
pub struct Shared {
    pub calls: RefCell<Vec<&'static str>>,
    pub answer: Cell<i64>,
    in_str: Cell<bool>,
    /// the call that fails, counted from now on; 0: none
    pub fails: Cell<usize>,
    /// a call has failed
    pub failed: Cell<bool>,
}

/// What a failing call says.
pub const FAILS: &str = "the format fails";

pub struct Mock {
    pub nulls: bool,
    pub shared: Rc<Shared>,
}

impl Mock {
    fn call(&mut self, c: &'static str) -> R<()> {
        self.shared.calls.borrow_mut().push(c);
        let n = self.shared.fails.get();
        self.shared.fails.set(n.saturating_sub(1));
        if n == 1 {
            self.shared.failed.set(true);
            return Err(Stop::Custom(FAILS.into()));
        }
        Ok(())
    }
    fn yes(&self) -> bool {
        self.shared.answer.get() == 1
    }
    /// The end of a string: of a value, or the key of an entry.
    fn end_str(&mut self) -> R<()> {
        if self.shared.in_str.replace(false) {
            self.call("put")
        } else {
            self.call("end_key")
        }
    }
}

impl Outliner for Mock {
    type Error = Stop;
    fn supports_null(&self) -> bool {
        self.nulls
    }
    fn pop_null(&mut self) -> R<()> {
        self.call("put")
    }
    fn open_str(&mut self) -> R<()> {
        self.shared.in_str.set(true);
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        self.end_str()
    }
    fn open_struct(&mut self, _: Option<&'static str>) -> R<()> {
        self.call("open_struct")
    }
    fn push_field(&mut self, _: &'static str) -> R<()> {
        self.call("field")
    }
    fn close_struct(&mut self) -> R<()> {
        self.call("close_struct")
    }
    fn open_tuple(&mut self, _: Option<&'static str>) -> R<()> {
        self.call("open_tuple")
    }
    fn push_element(&mut self) -> R<()> {
        self.call("elem")
    }
    fn close_tuple(&mut self) -> R<()> {
        self.call("close_tuple")
    }
    fn push_item(&mut self) -> R<()> {
        self.call("item")
    }
    fn close_list(&mut self) -> R<()> {
        self.call("close_list")
    }
}

impl Serializer for Mock {
    fn put_bool(&mut self, _: bool) -> R<()> {
        self.call("put")
    }
    fn put_i8(&mut self, _: i8) -> R<()> {
        self.call("put")
    }
    fn put_i16(&mut self, _: i16) -> R<()> {
        self.call("put")
    }
    fn put_i32(&mut self, _: i32) -> R<()> {
        self.call("put")
    }
    fn put_i64(&mut self, _: i64) -> R<()> {
        self.call("put")
    }
    fn put_u8(&mut self, _: u8) -> R<()> {
        self.call("put")
    }
    fn put_u16(&mut self, _: u16) -> R<()> {
        self.call("put")
    }
    fn put_u32(&mut self, _: u32) -> R<()> {
        self.call("put")
    }
    fn put_u64(&mut self, _: u64) -> R<()> {
        self.call("put")
    }
    fn put_f32(&mut self, _: f32) -> R<()> {
        self.call("put")
    }
    fn put_f64(&mut self, _: f64) -> R<()> {
        self.call("put")
    }
    fn put_char(&mut self, _: char) -> R<()> {
        self.call("put")
    }
    fn append_char(&mut self, _: char) -> R<()> {
        Ok(())
    }
    fn put_tag(&mut self, _: usize, _: usize, _: Option<&'static str>) -> R<()> {
        self.call("put")
    }
    fn open_list_sized(&mut self, _: usize) -> R<()> {
        self.call("open_list")
    }
}

impl Deserializer for Mock {
    fn get_bool(&mut self) -> R<bool> {
        self.call("put")?;
        Ok(true)
    }
    fn get_i8(&mut self) -> R<i8> {
        self.call("put")?;
        Ok(7)
    }
    fn get_i16(&mut self) -> R<i16> {
        self.call("put")?;
        Ok(7)
    }
    fn get_i32(&mut self) -> R<i32> {
        self.call("put")?;
        Ok(7)
    }
    fn get_i64(&mut self) -> R<i64> {
        self.call("put")?;
        Ok(7)
    }
    fn get_u8(&mut self) -> R<u8> {
        self.call("put")?;
        Ok(7)
    }
    fn get_u16(&mut self) -> R<u16> {
        self.call("put")?;
        Ok(7)
    }
    fn get_u32(&mut self) -> R<u32> {
        self.call("put")?;
        Ok(7)
    }
    fn get_u64(&mut self) -> R<u64> {
        self.call("put")?;
        Ok(7)
    }
    fn get_f32(&mut self) -> R<f32> {
        self.call("put")?;
        Ok(1.5)
    }
    fn get_f64(&mut self) -> R<f64> {
        self.call("put")?;
        Ok(2.5)
    }
    fn get_char(&mut self) -> R<char> {
        self.call("put")?;
        Ok('x')
    }
    fn next_char(&mut self) -> R<Option<char>> {
        self.end_str()?;
        Ok(None)
    }
    fn flush_str(&mut self) -> R<Cow<'_, str>> {
        self.end_str()?;
        Ok(Cow::Borrowed("key"))
    }
    fn get_tag(&mut self, _: usize, _: &'static NameMap<usize>) -> R<usize> {
        self.call("put")?;
        Ok(0)
    }
    fn check_null(&mut self) -> R<bool> {
        let res = self.yes();
        self.call(if res { "isnull" } else { "notnull" })?;
        Ok(res)
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        self.call("open_list")?;
        Ok(usize::try_from(self.shared.answer.get()).ok())
    }
    fn next_item(&mut self) -> R<bool> {
        let res = self.yes();
        self.call(if res { "next_item" } else { "end_list" })?;
        Ok(res)
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> Stop {
        Stop::Custom(source.to_string())
    }
    fn error_missing_item(&self) -> Stop {
        Stop::Custom("missing item".into())
    }
    fn error_extra_item(&self) -> Stop {
        Stop::Custom("extra item".into())
    }
}

impl JsonOutliner for Mock {
    fn open_object(&mut self) -> R<()> {
        self.call("open_obj")
    }
    fn push_entry(&mut self, _: &str) -> R<()> {
        self.call("entry")
    }
    fn close_object(&mut self) -> R<()> {
        self.call("close_obj")
    }
}

impl JsonSerializer for Mock {
    fn open_list_streaming(&mut self) -> R<()> {
        self.call("open_list")
    }
    fn add_entry(&mut self) -> R<()> {
        self.call("entry")
    }
}

/// The answer for peek_value_type that means an object.
pub const OBJECT: i64 = -77;

impl JsonDeserializer for Mock {
    fn peek_value_type(&self) -> ValueType {
        if self.shared.answer.get() == OBJECT {
            ValueType::Object
        } else {
            ValueType::Array
        }
    }
    fn peek_collection_type(&self) -> CollectionType {
        CollectionType::Array
    }
    fn skip_value(&mut self) -> R<()> {
        self.call("put")
    }
    fn push_null(&mut self, _: Option<&'static str>) {}
    fn try_push_entry(&mut self, _: &str) -> R<bool> {
        let res = self.yes();
        self.call(if res { "entry" } else { "no_entry" })?;
        Ok(res)
    }
    fn next_entry(&mut self) -> R<bool> {
        let res = self.yes();
        self.call(if res { "next_entry" } else { "end_obj" })?;
        Ok(res)
    }
    fn skip_object(&mut self) -> R<()> {
        self.call("close_obj")
    }
    fn error_expected_type(&self, _: &'static [ValueType]) -> Stop {
        Stop::Custom("type".into())
    }
    fn error_missing_entry(&self, key: String) -> Stop {
        Stop::Custom(format!("missing {key}"))
    }
    fn error_extra_entry(&self, key: String) -> Stop {
        Stop::Custom(format!("extra {key}"))
    }
}
