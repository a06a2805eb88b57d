# -*- coding: utf-8 -*-
# Generated by the protocol buffer compiler.  DO NOT EDIT!
# NO CHECKED-IN PROTOBUF GENCODE
# source: kitchen2.proto
# Protobuf Python Version: 6.33.5
"""Generated protocol buffer code."""
from google.protobuf import descriptor as _descriptor
from google.protobuf import descriptor_pool as _descriptor_pool
from google.protobuf import runtime_version as _runtime_version
from google.protobuf import symbol_database as _symbol_database
from google.protobuf.internal import builder as _builder
_runtime_version.ValidateProtobufRuntimeVersion(
    _runtime_version.Domain.PUBLIC,
    6,
    33,
    5,
    '',
    'kitchen2.proto'
)
# @@protoc_insertion_point(imports)

_sym_db = _symbol_database.Default()




DESCRIPTOR = _descriptor_pool.Default().AddSerializedFile(b'\n\x0ekitchen2.proto\x12\x0bvt.kitchen2\"\xc8\x02\n\x03Old\x12\x0c\n\x04must\x18\x01 \x02(\t\x12\x18\n\x0cwith_default\x18\x02 \x01(\x03:\x02-7\x12\x19\n\x0ctext_default\x18\x03 \x01(\t:\x03\x61\nb\x12*\n\x04mood\x18\x04 \x01(\x0e\x32\x11.vt.kitchen2.Mood:\tMOOD_GLAD\x12\x12\n\x06packed\x18\x05 \x03(\x11\x42\x02\x10\x01\x12\r\n\x05loose\x18\x06 \x03(\x06\x12%\n\x05\x62unch\x18\x07 \x01(\n2\x16.vt.kitchen2.Old.Bunch\x12\x0e\n\x04left\x18\x08 \x01(\x02H\x00\x12\x0f\n\x05right\x18\t \x01(\tH\x00\x12 \n\x05moods\x18\n \x03(\x0e\x32\x11.vt.kitchen2.Mood\x1a\x34\n\x05\x42unch\x12\x0b\n\x03raw\x18\x01 \x01(\x0c\x12\x1e\n\x04olds\x18\x02 \x03(\x0b\x32\x10.vt.kitchen2.Old*\x05\x08\x64\x10\xc9\x01\x42\x08\n\x06\x65ither*$\n\x04Mood\x12\r\n\tMOOD_CALM\x10\x04\x12\r\n\tMOOD_GLAD\x10\x01:$\n\next_number\x12\x10.vt.kitchen2.Old\x18\x64 \x01(\x05:\"\n\x08\x65xt_text\x12\x10.vt.kitchen2.Old\x18\x65 \x01(\t:3\n\x07\x65xt_old\x12\x10.vt.kitchen2.Old\x18\x66 \x01(\x0b\x32\x10.vt.kitchen2.Old:6\n\text_moods\x12\x10.vt.kitchen2.Old\x18g \x03(\x0e\x32\x11.vt.kitchen2.Mood')

_globals = globals()
_builder.BuildMessageAndEnumDescriptors(DESCRIPTOR, _globals)
_builder.BuildTopDescriptorsAndMessages(DESCRIPTOR, 'kitchen2_pb2', _globals)
if not _descriptor._USE_C_DESCRIPTORS:
  DESCRIPTOR._loaded_options = None
  _globals['_OLD'].fields_by_name['packed']._loaded_options = None
  _globals['_OLD'].fields_by_name['packed']._serialized_options = b'\020\001'
  _globals['_MOOD']._serialized_start=362
  _globals['_MOOD']._serialized_end=398
  _globals['_OLD']._serialized_start=32
  _globals['_OLD']._serialized_end=360
  _globals['_OLD_BUNCH']._serialized_start=291
  _globals['_OLD_BUNCH']._serialized_end=343
# @@protoc_insertion_point(module_scope)
