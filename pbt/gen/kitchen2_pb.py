# Generated from kitchen2.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Final, Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Extension, Message
from protobuf._codegen import file_desc

if TYPE_CHECKING:
    from protobuf import DescFile, Oneof


_OldFields: TypeAlias = Literal["must", "with_default", "text_default", "mood", "packed", "loose", "bunch", "left", "right", "moods"]

class Old(Message[_OldFields]):
    """
    ```proto
    message vt.kitchen2.Old
    ```

    Attributes:
        must:
            ```proto
            required string must = 1;
            ```
        with_default:
            ```proto
            optional int64 with_default = 2 [default = -7];
            ```
        text_default:
            ```proto
            optional string text_default = 3 [default = "a\\nb"];
            ```
        mood:
            ```proto
            optional vt.kitchen2.Mood mood = 4 [default = MOOD_GLAD];
            ```
        packed:
            ```proto
            repeated sint32 packed = 5 [packed = true];
            ```
        loose:
            ```proto
            repeated fixed64 loose = 6 [packed = false];
            ```
        bunch:
            ```proto
            optional vt.kitchen2.Old.Bunch bunch = 7;
            ```
        either:
            ```proto
            oneof either
            ```
        moods:
            ```proto
            repeated vt.kitchen2.Mood moods = 10 [packed = false];
            ```
    """

    __slots__ = ("must", "with_default", "text_default", "mood", "packed", "loose", "bunch", "moods", "either")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            must: str | None = None,
            with_default: int | None = None,
            text_default: str | None = None,
            mood: Mood | None = None,
            packed: list[int] | None = None,
            loose: list[int] | None = None,
            bunch: Old.Bunch | None = None,
            either: Oneof[Literal["left"], float] | Oneof[Literal["right"], str] | None = None,
            moods: list[Mood] | None = None,
        ) -> None:
            pass

        must: str
        with_default: int
        text_default: str
        mood: Mood
        packed: list[int]
        loose: list[int]
        bunch: Old.Bunch | None
        either: Oneof[Literal["left"], float] | Oneof[Literal["right"], str] | None
        moods: list[Mood]

    _BunchFields: TypeAlias = Literal["raw", "olds"]

    class Bunch(Message[_BunchFields]):
        """
        ```proto
        message vt.kitchen2.Old.Bunch
        ```

        Attributes:
            raw:
                ```proto
                optional bytes raw = 1;
                ```
            olds:
                ```proto
                repeated vt.kitchen2.Old olds = 2;
                ```
        """

        __slots__ = ("raw", "olds")

        if TYPE_CHECKING:

            def __init__(
                self,
                *,
                raw: bytes | None = None,
                olds: list[Old] | None = None,
            ) -> None:
                pass

            raw: bytes
            olds: list[Old]

class Mood(Enum):
    """
    ```proto
    enum vt.kitchen2.Mood
    ```

    Attributes:
        CALM:
            ```proto
            MOOD_CALM = 4
            ```
        GLAD:
            ```proto
            MOOD_GLAD = 1
            ```
    """

    CALM = 4
    GLAD = 1

ext_ext_number: Final[Extension[Old, int]] = Extension()
"""
```proto
extend vt.kitchen2.Old { optional int32 ext_number = 100 [json_name = "[vt.kitchen2.ext_number]"] }
```
"""

ext_ext_text: Final[Extension[Old, str]] = Extension()
"""
```proto
extend vt.kitchen2.Old { optional string ext_text = 101 [json_name = "[vt.kitchen2.ext_text]"] }
```
"""

ext_ext_old: Final[Extension[Old, Old]] = Extension()
"""
```proto
extend vt.kitchen2.Old { optional vt.kitchen2.Old ext_old = 102 [json_name = "[vt.kitchen2.ext_old]"] }
```
"""

ext_ext_moods: Final[Extension[Old, list[Mood]]] = Extension()
"""
```proto
extend vt.kitchen2.Old { repeated vt.kitchen2.Mood ext_moods = 103 [packed = false, json_name = "[vt.kitchen2.ext_moods]"] }
```
"""


_DESC = file_desc(
    b'\n\x0ekitchen2.proto\x12\x0bvt.kitchen2"\xa3\x03\n\x03Old\x12\x12\n\x04must\x18\x01 \x02(\tR\x04must\x12%\n\x0cwith_default\x18\x02 \x01(\x03:\x02-7R\x0bwithDefault\x12&\n\x0ctext_default\x18\x03 \x01(\t:\x03a\nbR\x0btextDefault\x120\n\x04mood\x18\x04 \x01(\x0e2\x11.vt.kitchen2.Mood:\tMOOD_GLADR\x04mood\x12\x1a\n\x06packed\x18\x05 \x03(\x11R\x06packedB\x02\x10\x01\x12\x14\n\x05loose\x18\x06 \x03(\x06R\x05loose\x12,\n\x05bunch\x18\x07 \x01(\n2\x16.vt.kitchen2.Old.BunchR\x05bunch\x12\x14\n\x04left\x18\x08 \x01(\x02H\x00R\x04left\x12\x16\n\x05right\x18\t \x01(\tH\x00R\x05right\x12\'\n\x05moods\x18\n \x03(\x0e2\x11.vt.kitchen2.MoodR\x05moods\x1a?\n\x05Bunch\x12\x10\n\x03raw\x18\x01 \x01(\x0cR\x03raw\x12$\n\x04olds\x18\x02 \x03(\x0b2\x10.vt.kitchen2.OldR\x04olds*\x05\x08d\x10\xc9\x01B\x08\n\x06either*$\n\x04Mood\x12\r\n\tMOOD_CALM\x10\x04\x12\r\n\tMOOD_GLAD\x10\x01:/\n\next_number\x18d \x01(\x05\x12\x10.vt.kitchen2.OldR\textNumber:+\n\x08ext_text\x18e \x01(\t\x12\x10.vt.kitchen2.OldR\x07extText:;\n\x07ext_old\x18f \x01(\x0b2\x10.vt.kitchen2.Old\x12\x10.vt.kitchen2.OldR\x06extOld:@\n\text_moods\x18g \x03(\x0e2\x11.vt.kitchen2.Mood\x12\x10.vt.kitchen2.OldR\x08extMoods',
    [],
    {
        "Old": Old,
        "Old.Bunch": Old.Bunch,
        "Mood": Mood,
        "ext_number": ext_ext_number,
        "ext_text": ext_ext_text,
        "ext_old": ext_ext_old,
        "ext_moods": ext_ext_moods,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `kitchen2.proto`."""
    return _DESC
