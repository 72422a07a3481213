// The operations of the stack-based API, and what they answer.

/// What is on the stack.
enum Fr { Value, Struct, Tuple, List(Option<nat>), Object, Str }
/// One operation of Outliner / Serializer / Deserializer / JsonOutliner / JsonSerializer / JsonDeserializer.
enum Op {
    PopNull, OpenStr, CloseStr, OpenStruct(Option<Seq<char>>), PushField(Seq<char>), CloseStruct, OpenTuple(Option<Seq<char>>), PushElement, CloseTuple,
    PushItem, CloseList,
    PutBool(bool), PutInt(int, int), PutF32(f32), PutF64(f64), PutChar(char), AppendChar(char), AppendStr(Seq<char>), PutStr(Seq<char>),
    PutTag(int, int, Option<Seq<char>>), OpenListSized(nat), OpenListStreaming, AddEntry,
    GetBool, GetInt(int), GetF32, GetF64, GetChar, NextChar, FlushStr, SkipStr, ReadStr, GetName(Map<Seq<char>, usize>), FlushName(Map<Seq<char>, usize>),
    GetTag(int, Map<Seq<char>, usize>), CheckNull, OpenList, NextItem,
    OpenObject, PushEntry(Seq<char>), CloseObject, SkipValue, TryPushEntry(Seq<char>), NextEntry, SkipObject, PushNull,
}
/// Integer types, named by a number.
spec const I8: int = 0; spec const I16: int = 1; spec const I32: int = 2; spec const I64: int = 3;
spec const U8: int = 4; spec const U16: int = 5; spec const U32: int = 6; spec const U64: int = 7;
/// What an operation answers.
enum Ret { Unit, Bool(bool), Int(int), F32(f32), F64(f64), Char(char), MaybeChar(Option<char>), Str(Seq<char>), Len(Option<usize>), Index(usize) }

spec fn ostr(o: Option<&'static str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

