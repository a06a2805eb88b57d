# Generated from kitchen.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Message
from protobuf._codegen import file_desc
from protobuf.wkt import any_pb, duration_pb, empty_pb, field_mask_pb, struct_pb, timestamp_pb, wrappers_pb

if TYPE_CHECKING:
    from protobuf import DescFile, Oneof
    from protobuf.wkt import Any, BoolValue, BytesValue, DoubleValue, Duration, Empty, FieldMask, Int64Value, ListValue, NullValue, StringValue, Struct, Timestamp, UInt32Value, Value


_SinkFields: TypeAlias = Literal["f_double", "f_float", "f_int32", "f_int64", "f_uint32", "f_uint64", "f_sint32", "f_sint64", "f_fixed32", "f_fixed64", "f_sfixed32", "f_sfixed64", "f_bool", "f_string", "f_bytes", "f_shade", "f_deep", "o_double", "o_float", "o_int32", "o_uint64", "o_bool", "o_string", "o_bytes", "o_shade", "r_double", "r_float", "r_sint64", "r_fixed32", "r_bool", "r_string", "r_bytes", "r_shade", "r_deep", "r_unpacked", "m_string", "m_int32", "m_uint64", "m_sint64", "m_bool", "m_fixed32", "p_string", "p_bytes", "p_sint32", "p_bool", "p_double", "p_shade", "p_deep", "p_null", "p_empty", "w_timestamp", "w_duration", "w_struct", "w_value", "w_list", "w_mask", "w_any", "w_empty", "w_double", "w_int64", "w_uint32", "w_bool", "w_string", "w_bytes", "r_duration", "r_any", "r_value", "renamed_field", "under__score_3"]

class Sink(Message[_SinkFields]):
    """
    ```proto
    message vt.kitchen.Sink
    ```

    Attributes:
        f_double:
            ```proto
            double f_double = 1;
            ```
        f_float:
            ```proto
            float f_float = 2;
            ```
        f_int32:
            ```proto
            int32 f_int32 = 3;
            ```
        f_int64:
            ```proto
            int64 f_int64 = 4;
            ```
        f_uint32:
            ```proto
            uint32 f_uint32 = 5;
            ```
        f_uint64:
            ```proto
            uint64 f_uint64 = 6;
            ```
        f_sint32:
            ```proto
            sint32 f_sint32 = 7;
            ```
        f_sint64:
            ```proto
            sint64 f_sint64 = 8;
            ```
        f_fixed32:
            ```proto
            fixed32 f_fixed32 = 9;
            ```
        f_fixed64:
            ```proto
            fixed64 f_fixed64 = 10;
            ```
        f_sfixed32:
            ```proto
            sfixed32 f_sfixed32 = 11;
            ```
        f_sfixed64:
            ```proto
            sfixed64 f_sfixed64 = 12;
            ```
        f_bool:
            ```proto
            bool f_bool = 13;
            ```
        f_string:
            ```proto
            string f_string = 14;
            ```
        f_bytes:
            ```proto
            bytes f_bytes = 15;
            ```
        f_shade:
            ```proto
            vt.kitchen.Shade f_shade = 16;
            ```
        f_deep:
            ```proto
            optional vt.kitchen.Sink.Deep f_deep = 17;
            ```
        o_double:
            ```proto
            optional double o_double = 21;
            ```
        o_float:
            ```proto
            optional float o_float = 22;
            ```
        o_int32:
            ```proto
            optional int32 o_int32 = 23;
            ```
        o_uint64:
            ```proto
            optional uint64 o_uint64 = 24;
            ```
        o_bool:
            ```proto
            optional bool o_bool = 25;
            ```
        o_string:
            ```proto
            optional string o_string = 26;
            ```
        o_bytes:
            ```proto
            optional bytes o_bytes = 27;
            ```
        o_shade:
            ```proto
            optional vt.kitchen.Shade o_shade = 28;
            ```
        r_double:
            ```proto
            repeated double r_double = 31 [packed = true];
            ```
        r_float:
            ```proto
            repeated float r_float = 32 [packed = true];
            ```
        r_sint64:
            ```proto
            repeated sint64 r_sint64 = 33 [packed = true];
            ```
        r_fixed32:
            ```proto
            repeated fixed32 r_fixed32 = 34 [packed = true];
            ```
        r_bool:
            ```proto
            repeated bool r_bool = 35 [packed = true];
            ```
        r_string:
            ```proto
            repeated string r_string = 36;
            ```
        r_bytes:
            ```proto
            repeated bytes r_bytes = 37;
            ```
        r_shade:
            ```proto
            repeated vt.kitchen.Shade r_shade = 38 [packed = true];
            ```
        r_deep:
            ```proto
            repeated vt.kitchen.Sink.Deep r_deep = 39;
            ```
        r_unpacked:
            ```proto
            repeated int32 r_unpacked = 40 [packed = false];
            ```
        m_string:
            ```proto
            map<string, string> m_string = 41;
            ```
        m_int32:
            ```proto
            map<int32, double> m_int32 = 42;
            ```
        m_uint64:
            ```proto
            map<uint64, bytes> m_uint64 = 43;
            ```
        m_sint64:
            ```proto
            map<sint64, vt.kitchen.Shade> m_sint64 = 44;
            ```
        m_bool:
            ```proto
            map<bool, vt.kitchen.Sink.Deep> m_bool = 45;
            ```
        m_fixed32:
            ```proto
            map<fixed32, google.protobuf.Timestamp> m_fixed32 = 46;
            ```
        pick:
            ```proto
            oneof pick
            ```
        w_timestamp:
            ```proto
            optional google.protobuf.Timestamp w_timestamp = 61;
            ```
        w_duration:
            ```proto
            optional google.protobuf.Duration w_duration = 62;
            ```
        w_struct:
            ```proto
            optional google.protobuf.Struct w_struct = 63;
            ```
        w_value:
            ```proto
            optional google.protobuf.Value w_value = 64;
            ```
        w_list:
            ```proto
            optional google.protobuf.ListValue w_list = 65;
            ```
        w_mask:
            ```proto
            optional google.protobuf.FieldMask w_mask = 66;
            ```
        w_any:
            ```proto
            optional google.protobuf.Any w_any = 67;
            ```
        w_empty:
            ```proto
            optional google.protobuf.Empty w_empty = 68;
            ```
        w_double:
            ```proto
            optional google.protobuf.DoubleValue w_double = 69;
            ```
        w_int64:
            ```proto
            optional google.protobuf.Int64Value w_int64 = 70;
            ```
        w_uint32:
            ```proto
            optional google.protobuf.UInt32Value w_uint32 = 71;
            ```
        w_bool:
            ```proto
            optional google.protobuf.BoolValue w_bool = 72;
            ```
        w_string:
            ```proto
            optional google.protobuf.StringValue w_string = 73;
            ```
        w_bytes:
            ```proto
            optional google.protobuf.BytesValue w_bytes = 74;
            ```
        r_duration:
            ```proto
            repeated google.protobuf.Duration r_duration = 75;
            ```
        r_any:
            ```proto
            repeated google.protobuf.Any r_any = 76;
            ```
        r_value:
            ```proto
            repeated google.protobuf.Value r_value = 77;
            ```
        renamed_field:
            ```proto
            string renamed_field = 81 [json_name = "RENAMED"];
            ```
        under__score_3:
            ```proto
            string under__score_3 = 82;
            ```
    """

    __slots__ = ("f_double", "f_float", "f_int32", "f_int64", "f_uint32", "f_uint64", "f_sint32", "f_sint64", "f_fixed32", "f_fixed64", "f_sfixed32", "f_sfixed64", "f_bool", "f_string", "f_bytes", "f_shade", "f_deep", "o_double", "o_float", "o_int32", "o_uint64", "o_bool", "o_string", "o_bytes", "o_shade", "r_double", "r_float", "r_sint64", "r_fixed32", "r_bool", "r_string", "r_bytes", "r_shade", "r_deep", "r_unpacked", "m_string", "m_int32", "m_uint64", "m_sint64", "m_bool", "m_fixed32", "w_timestamp", "w_duration", "w_struct", "w_value", "w_list", "w_mask", "w_any", "w_empty", "w_double", "w_int64", "w_uint32", "w_bool", "w_string", "w_bytes", "r_duration", "r_any", "r_value", "renamed_field", "under__score_3", "pick")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            f_double: float = 0,
            f_float: float = 0,
            f_int32: int = 0,
            f_int64: int = 0,
            f_uint32: int = 0,
            f_uint64: int = 0,
            f_sint32: int = 0,
            f_sint64: int = 0,
            f_fixed32: int = 0,
            f_fixed64: int = 0,
            f_sfixed32: int = 0,
            f_sfixed64: int = 0,
            f_bool: bool = False,
            f_string: str = "",
            f_bytes: bytes = b"",
            f_shade: Shade | None = None,
            f_deep: Sink.Deep | None = None,
            o_double: float | None = None,
            o_float: float | None = None,
            o_int32: int | None = None,
            o_uint64: int | None = None,
            o_bool: bool | None = None,
            o_string: str | None = None,
            o_bytes: bytes | None = None,
            o_shade: Shade | None = None,
            r_double: list[float] | None = None,
            r_float: list[float] | None = None,
            r_sint64: list[int] | None = None,
            r_fixed32: list[int] | None = None,
            r_bool: list[bool] | None = None,
            r_string: list[str] | None = None,
            r_bytes: list[bytes] | None = None,
            r_shade: list[Shade] | None = None,
            r_deep: list[Sink.Deep] | None = None,
            r_unpacked: list[int] | None = None,
            m_string: dict[str, str] | None = None,
            m_int32: dict[int, float] | None = None,
            m_uint64: dict[int, bytes] | None = None,
            m_sint64: dict[int, Shade] | None = None,
            m_bool: dict[bool, Sink.Deep] | None = None,
            m_fixed32: dict[int, Timestamp] | None = None,
            pick: Oneof[Literal["p_string"], str] | Oneof[Literal["p_bytes"], bytes] | Oneof[Literal["p_sint32"], int] | Oneof[Literal["p_bool"], bool] | Oneof[Literal["p_double"], float] | Oneof[Literal["p_shade"], Shade] | Oneof[Literal["p_deep"], Sink.Deep] | Oneof[Literal["p_null"], NullValue] | Oneof[Literal["p_empty"], Empty] | None = None,
            w_timestamp: Timestamp | None = None,
            w_duration: Duration | None = None,
            w_struct: Struct | None = None,
            w_value: Value | None = None,
            w_list: ListValue | None = None,
            w_mask: FieldMask | None = None,
            w_any: Any | None = None,
            w_empty: Empty | None = None,
            w_double: DoubleValue | None = None,
            w_int64: Int64Value | None = None,
            w_uint32: UInt32Value | None = None,
            w_bool: BoolValue | None = None,
            w_string: StringValue | None = None,
            w_bytes: BytesValue | None = None,
            r_duration: list[Duration] | None = None,
            r_any: list[Any] | None = None,
            r_value: list[Value] | None = None,
            renamed_field: str = "",
            under__score_3: str = "",
        ) -> None:
            pass

        f_double: float
        f_float: float
        f_int32: int
        f_int64: int
        f_uint32: int
        f_uint64: int
        f_sint32: int
        f_sint64: int
        f_fixed32: int
        f_fixed64: int
        f_sfixed32: int
        f_sfixed64: int
        f_bool: bool
        f_string: str
        f_bytes: bytes
        f_shade: Shade
        f_deep: Sink.Deep | None
        o_double: float
        o_float: float
        o_int32: int
        o_uint64: int
        o_bool: bool
        o_string: str
        o_bytes: bytes
        o_shade: Shade
        r_double: list[float]
        r_float: list[float]
        r_sint64: list[int]
        r_fixed32: list[int]
        r_bool: list[bool]
        r_string: list[str]
        r_bytes: list[bytes]
        r_shade: list[Shade]
        r_deep: list[Sink.Deep]
        r_unpacked: list[int]
        m_string: dict[str, str]
        m_int32: dict[int, float]
        m_uint64: dict[int, bytes]
        m_sint64: dict[int, Shade]
        m_bool: dict[bool, Sink.Deep]
        m_fixed32: dict[int, Timestamp]
        pick: Oneof[Literal["p_string"], str] | Oneof[Literal["p_bytes"], bytes] | Oneof[Literal["p_sint32"], int] | Oneof[Literal["p_bool"], bool] | Oneof[Literal["p_double"], float] | Oneof[Literal["p_shade"], Shade] | Oneof[Literal["p_deep"], Sink.Deep] | Oneof[Literal["p_null"], NullValue] | Oneof[Literal["p_empty"], Empty] | None
        w_timestamp: Timestamp | None
        w_duration: Duration | None
        w_struct: Struct | None
        w_value: Value | None
        w_list: ListValue | None
        w_mask: FieldMask | None
        w_any: Any | None
        w_empty: Empty | None
        w_double: DoubleValue | None
        w_int64: Int64Value | None
        w_uint32: UInt32Value | None
        w_bool: BoolValue | None
        w_string: StringValue | None
        w_bytes: BytesValue | None
        r_duration: list[Duration]
        r_any: list[Any]
        r_value: list[Value]
        renamed_field: str
        under__score_3: str

    _DeepFields: TypeAlias = Literal["name", "inner", "children", "sink"]

    class Deep(Message[_DeepFields]):
        """
        ```proto
        message vt.kitchen.Sink.Deep
        ```

        Attributes:
            name:
                ```proto
                string name = 1;
                ```
            inner:
                ```proto
                vt.kitchen.Sink.Inner inner = 2;
                ```
            children:
                ```proto
                map<string, vt.kitchen.Sink.Deep> children = 3;
                ```
            sink:
                ```proto
                optional vt.kitchen.Sink sink = 4;
                ```
        """

        __slots__ = ("name", "inner", "children", "sink")

        if TYPE_CHECKING:

            def __init__(
                self,
                *,
                name: str = "",
                inner: Sink.Inner | None = None,
                children: dict[str, Sink.Deep] | None = None,
                sink: Sink | None = None,
            ) -> None:
                pass

            name: str
            inner: Sink.Inner
            children: dict[str, Sink.Deep]
            sink: Sink | None

    class Inner(Enum):
        """
        ```proto
        enum vt.kitchen.Sink.Inner
        ```

        Attributes:
            ZERO:
                ```proto
                INNER_ZERO = 0
                ```
            TWO:
                ```proto
                INNER_TWO = 2
                ```
        """

        ZERO = 0
        TWO = 2

class Shade(Enum):
    """
    ```proto
    enum vt.kitchen.Shade
    ```

    Attributes:
        UNSPECIFIED:
            ```proto
            SHADE_UNSPECIFIED = 0
            ```
        DARK:
            ```proto
            SHADE_DARK = 1
            ```
        LIGHT:
            ```proto
            SHADE_LIGHT = -3
            ```
    """

    UNSPECIFIED = 0
    DARK = 1
    LIGHT = -3


_DESC = file_desc(
    b'\n\rkitchen.proto\x12\nvt.kitchen\x1a\x19google/protobuf/any.proto\x1a\x1egoogle/protobuf/duration.proto\x1a\x1bgoogle/protobuf/empty.proto\x1a google/protobuf/field_mask.proto\x1a\x1cgoogle/protobuf/struct.proto\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/wrappers.proto"\xec\x1b\n\x04Sink\x12\x19\n\x08f_double\x18\x01 \x01(\x01R\x07fDouble\x12\x17\n\x07f_float\x18\x02 \x01(\x02R\x06fFloat\x12\x17\n\x07f_int32\x18\x03 \x01(\x05R\x06fInt32\x12\x17\n\x07f_int64\x18\x04 \x01(\x03R\x06fInt64\x12\x19\n\x08f_uint32\x18\x05 \x01(\rR\x07fUint32\x12\x19\n\x08f_uint64\x18\x06 \x01(\x04R\x07fUint64\x12\x19\n\x08f_sint32\x18\x07 \x01(\x11R\x07fSint32\x12\x19\n\x08f_sint64\x18\x08 \x01(\x12R\x07fSint64\x12\x1b\n\tf_fixed32\x18\t \x01(\x07R\x08fFixed32\x12\x1b\n\tf_fixed64\x18\n \x01(\x06R\x08fFixed64\x12\x1d\n\nf_sfixed32\x18\x0b \x01(\x0fR\tfSfixed32\x12\x1d\n\nf_sfixed64\x18\x0c \x01(\x10R\tfSfixed64\x12\x15\n\x06f_bool\x18\r \x01(\x08R\x05fBool\x12\x19\n\x08f_string\x18\x0e \x01(\tR\x07fString\x12\x17\n\x07f_bytes\x18\x0f \x01(\x0cR\x06fBytes\x12*\n\x07f_shade\x18\x10 \x01(\x0e2\x11.vt.kitchen.ShadeR\x06fShade\x12,\n\x06f_deep\x18\x11 \x01(\x0b2\x15.vt.kitchen.Sink.DeepR\x05fDeep\x12\x1e\n\x08o_double\x18\x15 \x01(\x01H\x01R\x07oDouble\x88\x01\x01\x12\x1c\n\x07o_float\x18\x16 \x01(\x02H\x02R\x06oFloat\x88\x01\x01\x12\x1c\n\x07o_int32\x18\x17 \x01(\x05H\x03R\x06oInt32\x88\x01\x01\x12\x1e\n\x08o_uint64\x18\x18 \x01(\x04H\x04R\x07oUint64\x88\x01\x01\x12\x1a\n\x06o_bool\x18\x19 \x01(\x08H\x05R\x05oBool\x88\x01\x01\x12\x1e\n\x08o_string\x18\x1a \x01(\tH\x06R\x07oString\x88\x01\x01\x12\x1c\n\x07o_bytes\x18\x1b \x01(\x0cH\x07R\x06oBytes\x88\x01\x01\x12/\n\x07o_shade\x18\x1c \x01(\x0e2\x11.vt.kitchen.ShadeH\x08R\x06oShade\x88\x01\x01\x12\x19\n\x08r_double\x18\x1f \x03(\x01R\x07rDouble\x12\x17\n\x07r_float\x18  \x03(\x02R\x06rFloat\x12\x19\n\x08r_sint64\x18! \x03(\x12R\x07rSint64\x12\x1b\n\tr_fixed32\x18" \x03(\x07R\x08rFixed32\x12\x15\n\x06r_bool\x18# \x03(\x08R\x05rBool\x12\x19\n\x08r_string\x18$ \x03(\tR\x07rString\x12\x17\n\x07r_bytes\x18% \x03(\x0cR\x06rBytes\x12*\n\x07r_shade\x18& \x03(\x0e2\x11.vt.kitchen.ShadeR\x06rShade\x12,\n\x06r_deep\x18\' \x03(\x0b2\x15.vt.kitchen.Sink.DeepR\x05rDeep\x12!\n\nr_unpacked\x18( \x03(\x05R\trUnpackedB\x02\x10\x00\x128\n\x08m_string\x18) \x03(\x0b2\x1d.vt.kitchen.Sink.MStringEntryR\x07mString\x125\n\x07m_int32\x18* \x03(\x0b2\x1c.vt.kitchen.Sink.MInt32EntryR\x06mInt32\x128\n\x08m_uint64\x18+ \x03(\x0b2\x1d.vt.kitchen.Sink.MUint64EntryR\x07mUint64\x128\n\x08m_sint64\x18, \x03(\x0b2\x1d.vt.kitchen.Sink.MSint64EntryR\x07mSint64\x122\n\x06m_bool\x18- \x03(\x0b2\x1b.vt.kitchen.Sink.MBoolEntryR\x05mBool\x12;\n\tm_fixed32\x18. \x03(\x0b2\x1e.vt.kitchen.Sink.MFixed32EntryR\x08mFixed32\x12\x1b\n\x08p_string\x183 \x01(\tH\x00R\x07pString\x12\x19\n\x07p_bytes\x184 \x01(\x0cH\x00R\x06pBytes\x12\x1b\n\x08p_sint32\x185 \x01(\x11H\x00R\x07pSint32\x12\x17\n\x06p_bool\x186 \x01(\x08H\x00R\x05pBool\x12\x1b\n\x08p_double\x187 \x01(\x01H\x00R\x07pDouble\x12,\n\x07p_shade\x188 \x01(\x0e2\x11.vt.kitchen.ShadeH\x00R\x06pShade\x12.\n\x06p_deep\x189 \x01(\x0b2\x15.vt.kitchen.Sink.DeepH\x00R\x05pDeep\x123\n\x06p_null\x18: \x01(\x0e2\x1a.google.protobuf.NullValueH\x00R\x05pNull\x121\n\x07p_empty\x18; \x01(\x0b2\x16.google.protobuf.EmptyH\x00R\x06pEmpty\x12;\n\x0bw_timestamp\x18= \x01(\x0b2\x1a.google.protobuf.TimestampR\nwTimestamp\x128\n\nw_duration\x18> \x01(\x0b2\x19.google.protobuf.DurationR\twDuration\x122\n\x08w_struct\x18? \x01(\x0b2\x17.google.protobuf.StructR\x07wStruct\x12/\n\x07w_value\x18@ \x01(\x0b2\x16.google.protobuf.ValueR\x06wValue\x121\n\x06w_list\x18A \x01(\x0b2\x1a.google.protobuf.ListValueR\x05wList\x121\n\x06w_mask\x18B \x01(\x0b2\x1a.google.protobuf.FieldMaskR\x05wMask\x12)\n\x05w_any\x18C \x01(\x0b2\x14.google.protobuf.AnyR\x04wAny\x12/\n\x07w_empty\x18D \x01(\x0b2\x16.google.protobuf.EmptyR\x06wEmpty\x127\n\x08w_double\x18E \x01(\x0b2\x1c.google.protobuf.DoubleValueR\x07wDouble\x124\n\x07w_int64\x18F \x01(\x0b2\x1b.google.protobuf.Int64ValueR\x06wInt64\x127\n\x08w_uint32\x18G \x01(\x0b2\x1c.google.protobuf.UInt32ValueR\x07wUint32\x121\n\x06w_bool\x18H \x01(\x0b2\x1a.google.protobuf.BoolValueR\x05wBool\x127\n\x08w_string\x18I \x01(\x0b2\x1c.google.protobuf.StringValueR\x07wString\x124\n\x07w_bytes\x18J \x01(\x0b2\x1b.google.protobuf.BytesValueR\x06wBytes\x128\n\nr_duration\x18K \x03(\x0b2\x19.google.protobuf.DurationR\trDuration\x12)\n\x05r_any\x18L \x03(\x0b2\x14.google.protobuf.AnyR\x04rAny\x12/\n\x07r_value\x18M \x03(\x0b2\x16.google.protobuf.ValueR\x06rValue\x12\x1e\n\rrenamed_field\x18Q \x01(\tR\x07RENAMED\x12#\n\x0eunder__score_3\x18R \x01(\tR\x0bunderScore3\x1a\x91\x02\n\x04Deep\x12\x12\n\x04name\x18\x01 \x01(\tR\x04name\x12,\n\x05inner\x18\x02 \x01(\x0e2\x16.vt.kitchen.Sink.InnerR\x05inner\x12?\n\x08children\x18\x03 \x03(\x0b2#.vt.kitchen.Sink.Deep.ChildrenEntryR\x08children\x12)\n\x04sink\x18\x04 \x01(\x0b2\x10.vt.kitchen.SinkH\x00R\x04sink\x88\x01\x01\x1aR\n\rChildrenEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12+\n\x05value\x18\x02 \x01(\x0b2\x15.vt.kitchen.Sink.DeepR\x05value:\x028\x01B\x07\n\x05_sink\x1a:\n\x0cMStringEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a9\n\x0bMInt32Entry\x12\x10\n\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a:\n\x0cMUint64Entry\x12\x10\n\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n\x05value\x18\x02 \x01(\x0cR\x05value:\x028\x01\x1aM\n\x0cMSint64Entry\x12\x10\n\x03key\x18\x01 \x01(\x12R\x03key\x12\'\n\x05value\x18\x02 \x01(\x0e2\x11.vt.kitchen.ShadeR\x05value:\x028\x01\x1aO\n\nMBoolEntry\x12\x10\n\x03key\x18\x01 \x01(\x08R\x03key\x12+\n\x05value\x18\x02 \x01(\x0b2\x15.vt.kitchen.Sink.DeepR\x05value:\x028\x01\x1aW\n\rMFixed32Entry\x12\x10\n\x03key\x18\x01 \x01(\x07R\x03key\x120\n\x05value\x18\x02 \x01(\x0b2\x1a.google.protobuf.TimestampR\x05value:\x028\x01"&\n\x05Inner\x12\x0e\n\nINNER_ZERO\x10\x00\x12\r\n\tINNER_TWO\x10\x02B\x06\n\x04pickB\x0b\n\t_o_doubleB\n\n\x08_o_floatB\n\n\x08_o_int32B\x0b\n\t_o_uint64B\t\n\x07_o_boolB\x0b\n\t_o_stringB\n\n\x08_o_bytesB\n\n\x08_o_shade*H\n\x05Shade\x12\x15\n\x11SHADE_UNSPECIFIED\x10\x00\x12\x0e\n\nSHADE_DARK\x10\x01\x12\x18\n\x0bSHADE_LIGHT\x10\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x01b\x06proto3',
    [
        any_pb.desc(),
        duration_pb.desc(),
        empty_pb.desc(),
        field_mask_pb.desc(),
        struct_pb.desc(),
        timestamp_pb.desc(),
        wrappers_pb.desc(),
    ],
    {
        "Sink": Sink,
        "Sink.Deep": Sink.Deep,
        "Sink.Inner": Sink.Inner,
        "Shade": Shade,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `kitchen.proto`."""
    return _DESC
