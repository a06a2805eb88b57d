# Generated from kitchen3.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Message
from protobuf._codegen import file_desc

if TYPE_CHECKING:
    from protobuf import DescFile


_NewFields: TypeAlias = Literal["explicit", "implicit", "delimited", "expanded", "opens", "by_name", "with_default"]

class New(Message[_NewFields]):
    """
    ```proto
    message vt.kitchen3.New
    ```

    Attributes:
        explicit:
            ```proto
            optional string explicit = 1;
            ```
        implicit:
            ```proto
            int32 implicit = 2;
            ```
        delimited:
            ```proto
            optional vt.kitchen3.New delimited = 3;
            ```
        expanded:
            ```proto
            repeated int64 expanded = 4 [packed = false];
            ```
        opens:
            ```proto
            repeated vt.kitchen3.Open opens = 5 [packed = true];
            ```
        by_name:
            ```proto
            map<string, vt.kitchen3.New> by_name = 6;
            ```
        with_default:
            ```proto
            optional int64 with_default = 7 [default = 42];
            ```
    """

    __slots__ = ("explicit", "implicit", "delimited", "expanded", "opens", "by_name", "with_default")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            explicit: str | None = None,
            implicit: int = 0,
            delimited: New | None = None,
            expanded: list[int] | None = None,
            opens: list[Open] | None = None,
            by_name: dict[str, New] | None = None,
            with_default: int | None = None,
        ) -> None:
            pass

        explicit: str
        implicit: int
        delimited: New | None
        expanded: list[int]
        opens: list[Open]
        by_name: dict[str, New]
        with_default: int

class Open(Enum):
    """
    ```proto
    enum vt.kitchen3.Open
    ```

    Attributes:
        ZERO:
            ```proto
            OPEN_ZERO = 0
            ```
        ONE:
            ```proto
            OPEN_ONE = 1
            ```
    """

    ZERO = 0
    ONE = 1


_DESC = file_desc(
    b'\n\x0ekitchen3.proto\x12\x0bvt.kitchen3"\xf2\x02\n\x03New\x12\x1a\n\x08explicit\x18\x01 \x01(\tR\x08explicit\x12!\n\x08implicit\x18\x02 \x01(\x05R\x08implicitB\x05\xaa\x01\x02\x08\x02\x125\n\tdelimited\x18\x03 \x01(\x0b2\x10.vt.kitchen3.NewR\tdelimitedB\x05\xaa\x01\x02(\x02\x12!\n\x08expanded\x18\x04 \x03(\x03R\x08expandedB\x05\xaa\x01\x02\x18\x02\x12\'\n\x05opens\x18\x05 \x03(\x0e2\x11.vt.kitchen3.OpenR\x05opens\x125\n\x07by_name\x18\x06 \x03(\x0b2\x1c.vt.kitchen3.New.ByNameEntryR\x06byName\x12%\n\x0cwith_default\x18\x07 \x01(\x03:\x0242R\x0bwithDefault\x1aK\n\x0bByNameEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12&\n\x05value\x18\x02 \x01(\x0b2\x10.vt.kitchen3.NewR\x05value:\x028\x01*#\n\x04Open\x12\r\n\tOPEN_ZERO\x10\x00\x12\x0c\n\x08OPEN_ONE\x10\x01B\x05\x92\x03\x02\x08\x01b\x08editionsp\xe8\x07',
    [],
    {
        "New": New,
        "Open": Open,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `kitchen3.proto`."""
    return _DESC
