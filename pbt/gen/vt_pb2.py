# -*- coding: utf-8 -*-
# Generated by the protocol buffer compiler.  DO NOT EDIT!
# NO CHECKED-IN PROTOBUF GENCODE
# source: vt.proto
# Protobuf Python Version: 6.33.5
"""Generated protocol buffer code."""
from google.protobuf import descriptor as _descriptor
from google.protobuf import descriptor_pool as _descriptor_pool
from google.protobuf import runtime_version as _runtime_version
from google.protobuf import symbol_database as _symbol_database
from google.protobuf.internal import builder as _builder
_runtime_version.ValidateProtobufRuntimeVersion(
    _runtime_version.Domain.PUBLIC,
    6,
    33,
    5,
    '',
    'vt.proto'
)
# @@protoc_insertion_point(imports)

_sym_db = _symbol_database.Default()


from google.protobuf import timestamp_pb2 as google_dot_protobuf_dot_timestamp__pb2
from google.protobuf import wrappers_pb2 as google_dot_protobuf_dot_wrappers__pb2


DESCRIPTOR = _descriptor_pool.Default().AddSerializedFile(b'\n\x08vt.proto\x12\x05vt.v1\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/wrappers.proto\"B\n\x04Item\x12\x0c\n\x04name\x18\x01 \x01(\t\x12\r\n\x05\x63ount\x18\x02 \x01(\x11\x12\x1d\n\x08\x63hildren\x18\x03 \x03(\x0b\x32\x0b.vt.v1.Item\"\xc8\x02\n\x03Req\x12\x0c\n\x04text\x18\x01 \x01(\t\x12\x0c\n\x04\x64\x61ta\x18\x02 \x01(\x0c\x12\x0b\n\x03num\x18\x03 \x01(\x12\x12\x1a\n\x05items\x18\x04 \x03(\x0b\x32\x0b.vt.v1.Item\x12\"\n\x04tags\x18\x05 \x03(\x0b\x32\x14.vt.v1.Req.TagsEntry\x12\x0f\n\x05\x61lpha\x18\x06 \x01(\tH\x00\x12\x0e\n\x04\x62\x65ta\x18\x07 \x01(\rH\x00\x12\x0f\n\x05gamma\x18\x08 \x01(\x08H\x00\x12\x12\n\x05ratio\x18\t \x01(\x01H\x01\x88\x01\x01\x12\x1b\n\x05\x63olor\x18\n \x01(\x0e\x32\x0c.vt.v1.Color\x12&\n\x02\x61t\x18\x0b \x01(\x0b\x32\x1a.google.protobuf.Timestamp\x12\x0e\n\x06\x66ixeds\x18\x0c \x03(\x06\x1a+\n\tTagsEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12\r\n\x05value\x18\x02 \x01(\x05:\x02\x38\x01\x42\x06\n\x04kindB\x08\n\x06_ratio\"\xd8\x02\n\x03Res\x12\x0c\n\x04text\x18\x01 \x01(\t\x12\x0c\n\x04\x64\x61ta\x18\x02 \x01(\x0c\x12\x0b\n\x03num\x18\x03 \x01(\x03\x12\x1a\n\x05items\x18\x04 \x03(\x0b\x32\x0b.vt.v1.Item\x12\"\n\x04tags\x18\x05 \x03(\x0b\x32\x14.vt.v1.Res.TagsEntry\x12\x0f\n\x05\x61lpha\x18\x06 \x01(\tH\x00\x12\x0e\n\x04\x62\x65ta\x18\x07 \x01(\rH\x00\x12\x1c\n\x05gamma\x18\x08 \x01(\x0b\x32\x0b.vt.v1.ItemH\x00\x12\x11\n\x04\x66lag\x18\t \x01(\x08H\x01\x88\x01\x01\x12\x1c\n\x06\x63olors\x18\n \x03(\x0e\x32\x0c.vt.v1.Color\x12-\n\x07wrapped\x18\x0b \x01(\x0b\x32\x1c.google.protobuf.StringValue\x12\x0b\n\x03\x62ig\x18\x0c \x01(\x04\x1a+\n\tTagsEntry\x12\x0b\n\x03key\x18\x01 \x01(\x05\x12\r\n\x05value\x18\x02 \x01(\t:\x02\x38\x01\x42\x06\n\x04kindB\x07\n\x05_flag*=\n\x05\x43olor\x12\x15\n\x11\x43OLOR_UNSPECIFIED\x10\x00\x12\r\n\tCOLOR_RED\x10\x01\x12\x0e\n\nCOLOR_BLUE\x10\x05\x32\xb5\x01\n\x02Vt\x12\x1f\n\x05Unary\x12\n.vt.v1.Req\x1a\n.vt.v1.Res\x12\"\n\x03Get\x12\n.vt.v1.Req\x1a\n.vt.v1.Res\"\x03\x90\x02\x01\x12\"\n\x06\x43lient\x12\n.vt.v1.Req\x1a\n.vt.v1.Res(\x01\x12\"\n\x06Server\x12\n.vt.v1.Req\x1a\n.vt.v1.Res0\x01\x12\"\n\x04\x42idi\x12\n.vt.v1.Req\x1a\n.vt.v1.Res(\x01\x30\x01\x62\x06proto3')

_globals = globals()
_builder.BuildMessageAndEnumDescriptors(DESCRIPTOR, _globals)
_builder.BuildTopDescriptorsAndMessages(DESCRIPTOR, 'vt_pb2', _globals)
if not _descriptor._USE_C_DESCRIPTORS:
  DESCRIPTOR._loaded_options = None
  _globals['_REQ_TAGSENTRY']._loaded_options = None
  _globals['_REQ_TAGSENTRY']._serialized_options = b'8\001'
  _globals['_RES_TAGSENTRY']._loaded_options = None
  _globals['_RES_TAGSENTRY']._serialized_options = b'8\001'
  _globals['_VT'].methods_by_name['Get']._loaded_options = None
  _globals['_VT'].methods_by_name['Get']._serialized_options = b'\220\002\001'
  _globals['_COLOR']._serialized_start=830
  _globals['_COLOR']._serialized_end=891
  _globals['_ITEM']._serialized_start=84
  _globals['_ITEM']._serialized_end=150
  _globals['_REQ']._serialized_start=153
  _globals['_REQ']._serialized_end=481
  _globals['_REQ_TAGSENTRY']._serialized_start=420
  _globals['_REQ_TAGSENTRY']._serialized_end=463
  _globals['_RES']._serialized_start=484
  _globals['_RES']._serialized_end=828
  _globals['_RES_TAGSENTRY']._serialized_start=768
  _globals['_RES_TAGSENTRY']._serialized_end=811
  _globals['_VT']._serialized_start=894
  _globals['_VT']._serialized_end=1075
# @@protoc_insertion_point(module_scope)
