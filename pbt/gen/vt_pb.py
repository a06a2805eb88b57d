# Generated from vt.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Message
from protobuf._codegen import file_desc
from protobuf.wkt import timestamp_pb, wrappers_pb

if TYPE_CHECKING:
    from protobuf import DescFile, Oneof
    from protobuf.wkt import StringValue, Timestamp


_ItemFields: TypeAlias = Literal["name", "count", "children"]

class Item(Message[_ItemFields]):
    """
    ```proto
    message vt.v1.Item
    ```

    Attributes:
        name:
            ```proto
            string name = 1;
            ```
        count:
            ```proto
            sint32 count = 2;
            ```
        children:
            ```proto
            repeated vt.v1.Item children = 3;
            ```
    """

    __slots__ = ("name", "count", "children")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            name: str = "",
            count: int = 0,
            children: list[Item] | None = None,
        ) -> None:
            pass

        name: str
        count: int
        children: list[Item]

_ReqFields: TypeAlias = Literal["text", "data", "num", "items", "tags", "alpha", "beta", "gamma", "ratio", "color", "at", "fixeds"]

class Req(Message[_ReqFields]):
    """
    ```proto
    message vt.v1.Req
    ```

    Attributes:
        text:
            ```proto
            string text = 1;
            ```
        data:
            ```proto
            bytes data = 2;
            ```
        num:
            ```proto
            sint64 num = 3;
            ```
        items:
            ```proto
            repeated vt.v1.Item items = 4;
            ```
        tags:
            ```proto
            map<string, int32> tags = 5;
            ```
        kind:
            ```proto
            oneof kind
            ```
        ratio:
            ```proto
            optional double ratio = 9;
            ```
        color:
            ```proto
            vt.v1.Color color = 10;
            ```
        at:
            ```proto
            optional google.protobuf.Timestamp at = 11;
            ```
        fixeds:
            ```proto
            repeated fixed64 fixeds = 12 [packed = true];
            ```
    """

    __slots__ = ("text", "data", "num", "items", "tags", "ratio", "color", "at", "fixeds", "kind")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            text: str = "",
            data: bytes = b"",
            num: int = 0,
            items: list[Item] | None = None,
            tags: dict[str, int] | None = None,
            kind: Oneof[Literal["alpha"], str] | Oneof[Literal["beta"], int] | Oneof[Literal["gamma"], bool] | None = None,
            ratio: float | None = None,
            color: Color | None = None,
            at: Timestamp | None = None,
            fixeds: list[int] | None = None,
        ) -> None:
            pass

        text: str
        data: bytes
        num: int
        items: list[Item]
        tags: dict[str, int]
        kind: Oneof[Literal["alpha"], str] | Oneof[Literal["beta"], int] | Oneof[Literal["gamma"], bool] | None
        ratio: float
        color: Color
        at: Timestamp | None
        fixeds: list[int]

_ResFields: TypeAlias = Literal["text", "data", "num", "items", "tags", "alpha", "beta", "gamma", "flag", "colors", "wrapped", "big"]

class Res(Message[_ResFields]):
    """
    ```proto
    message vt.v1.Res
    ```

    Attributes:
        text:
            ```proto
            string text = 1;
            ```
        data:
            ```proto
            bytes data = 2;
            ```
        num:
            ```proto
            int64 num = 3;
            ```
        items:
            ```proto
            repeated vt.v1.Item items = 4;
            ```
        tags:
            ```proto
            map<int32, string> tags = 5;
            ```
        kind:
            ```proto
            oneof kind
            ```
        flag:
            ```proto
            optional bool flag = 9;
            ```
        colors:
            ```proto
            repeated vt.v1.Color colors = 10 [packed = true];
            ```
        wrapped:
            ```proto
            optional google.protobuf.StringValue wrapped = 11;
            ```
        big:
            ```proto
            uint64 big = 12;
            ```
    """

    __slots__ = ("text", "data", "num", "items", "tags", "flag", "colors", "wrapped", "big", "kind")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            text: str = "",
            data: bytes = b"",
            num: int = 0,
            items: list[Item] | None = None,
            tags: dict[int, str] | None = None,
            kind: Oneof[Literal["alpha"], str] | Oneof[Literal["beta"], int] | Oneof[Literal["gamma"], Item] | None = None,
            flag: bool | None = None,
            colors: list[Color] | None = None,
            wrapped: StringValue | None = None,
            big: int = 0,
        ) -> None:
            pass

        text: str
        data: bytes
        num: int
        items: list[Item]
        tags: dict[int, str]
        kind: Oneof[Literal["alpha"], str] | Oneof[Literal["beta"], int] | Oneof[Literal["gamma"], Item] | None
        flag: bool
        colors: list[Color]
        wrapped: StringValue | None
        big: int

class Color(Enum):
    """
    ```proto
    enum vt.v1.Color
    ```

    Attributes:
        UNSPECIFIED:
            ```proto
            COLOR_UNSPECIFIED = 0
            ```
        RED:
            ```proto
            COLOR_RED = 1
            ```
        BLUE:
            ```proto
            COLOR_BLUE = 5
            ```
    """

    UNSPECIFIED = 0
    RED = 1
    BLUE = 5


_DESC = file_desc(
    b'\n\x08vt.proto\x12\x05vt.v1\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/wrappers.proto"Y\n\x04Item\x12\x12\n\x04name\x18\x01 \x01(\tR\x04name\x12\x14\n\x05count\x18\x02 \x01(\x11R\x05count\x12\'\n\x08children\x18\x03 \x03(\x0b2\x0b.vt.v1.ItemR\x08children"\xa0\x03\n\x03Req\x12\x12\n\x04text\x18\x01 \x01(\tR\x04text\x12\x12\n\x04data\x18\x02 \x01(\x0cR\x04data\x12\x10\n\x03num\x18\x03 \x01(\x12R\x03num\x12!\n\x05items\x18\x04 \x03(\x0b2\x0b.vt.v1.ItemR\x05items\x12(\n\x04tags\x18\x05 \x03(\x0b2\x14.vt.v1.Req.TagsEntryR\x04tags\x12\x16\n\x05alpha\x18\x06 \x01(\tH\x00R\x05alpha\x12\x14\n\x04beta\x18\x07 \x01(\rH\x00R\x04beta\x12\x16\n\x05gamma\x18\x08 \x01(\x08H\x00R\x05gamma\x12\x19\n\x05ratio\x18\t \x01(\x01H\x01R\x05ratio\x88\x01\x01\x12"\n\x05color\x18\n \x01(\x0e2\x0c.vt.v1.ColorR\x05color\x12*\n\x02at\x18\x0b \x01(\x0b2\x1a.google.protobuf.TimestampR\x02at\x12\x16\n\x06fixeds\x18\x0c \x03(\x06R\x06fixeds\x1a7\n\tTagsEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01B\x06\n\x04kindB\x08\n\x06_ratio"\xb2\x03\n\x03Res\x12\x12\n\x04text\x18\x01 \x01(\tR\x04text\x12\x12\n\x04data\x18\x02 \x01(\x0cR\x04data\x12\x10\n\x03num\x18\x03 \x01(\x03R\x03num\x12!\n\x05items\x18\x04 \x03(\x0b2\x0b.vt.v1.ItemR\x05items\x12(\n\x04tags\x18\x05 \x03(\x0b2\x14.vt.v1.Res.TagsEntryR\x04tags\x12\x16\n\x05alpha\x18\x06 \x01(\tH\x00R\x05alpha\x12\x14\n\x04beta\x18\x07 \x01(\rH\x00R\x04beta\x12#\n\x05gamma\x18\x08 \x01(\x0b2\x0b.vt.v1.ItemH\x00R\x05gamma\x12\x17\n\x04flag\x18\t \x01(\x08H\x01R\x04flag\x88\x01\x01\x12$\n\x06colors\x18\n \x03(\x0e2\x0c.vt.v1.ColorR\x06colors\x126\n\x07wrapped\x18\x0b \x01(\x0b2\x1c.google.protobuf.StringValueR\x07wrapped\x12\x10\n\x03big\x18\x0c \x01(\x04R\x03big\x1a7\n\tTagsEntry\x12\x10\n\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n\x05value\x18\x02 \x01(\tR\x05value:\x028\x01B\x06\n\x04kindB\x07\n\x05_flag*=\n\x05Color\x12\x15\n\x11COLOR_UNSPECIFIED\x10\x00\x12\r\n\tCOLOR_RED\x10\x01\x12\x0e\n\nCOLOR_BLUE\x10\x052\xb5\x01\n\x02Vt\x12\x1f\n\x05Unary\x12\n.vt.v1.Req\x1a\n.vt.v1.Res\x12"\n\x03Get\x12\n.vt.v1.Req\x1a\n.vt.v1.Res"\x03\x90\x02\x01\x12"\n\x06Client\x12\n.vt.v1.Req\x1a\n.vt.v1.Res(\x01\x12"\n\x06Server\x12\n.vt.v1.Req\x1a\n.vt.v1.Res0\x01\x12"\n\x04Bidi\x12\n.vt.v1.Req\x1a\n.vt.v1.Res(\x010\x01b\x06proto3',
    [
        timestamp_pb.desc(),
        wrappers_pb.desc(),
    ],
    {
        "Item": Item,
        "Req": Req,
        "Res": Res,
        "Color": Color,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `vt.proto`."""
    return _DESC
