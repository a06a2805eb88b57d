# -*- coding: utf-8 -*-
# Generated by the protocol buffer compiler.  DO NOT EDIT!
# NO CHECKED-IN PROTOBUF GENCODE
# source: kitchen3.proto
# Protobuf Python Version: 6.33.5
"""Generated protocol buffer code."""
from google.protobuf import descriptor as _descriptor
from google.protobuf import descriptor_pool as _descriptor_pool
from google.protobuf import runtime_version as _runtime_version
from google.protobuf import symbol_database as _symbol_database
from google.protobuf.internal import builder as _builder
_runtime_version.ValidateProtobufRuntimeVersion(
    _runtime_version.Domain.PUBLIC,
    6,
    33,
    5,
    '',
    'kitchen3.proto'
)
# @@protoc_insertion_point(imports)

_sym_db = _symbol_database.Default()




DESCRIPTOR = _descriptor_pool.Default().AddSerializedFile(b'\n\x0ekitchen3.proto\x12\x0bvt.kitchen3\"\xa1\x02\n\x03New\x12\x10\n\x08\x65xplicit\x18\x01 \x01(\t\x12\x17\n\x08implicit\x18\x02 \x01(\x05\x42\x05\xaa\x01\x02\x08\x02\x12*\n\tdelimited\x18\x03 \x01(\x0b\x32\x10.vt.kitchen3.NewB\x05\xaa\x01\x02(\x02\x12\x17\n\x08\x65xpanded\x18\x04 \x03(\x03\x42\x05\xaa\x01\x02\x18\x02\x12 \n\x05opens\x18\x05 \x03(\x0e\x32\x11.vt.kitchen3.Open\x12-\n\x07\x62y_name\x18\x06 \x03(\x0b\x32\x1c.vt.kitchen3.New.ByNameEntry\x12\x18\n\x0cwith_default\x18\x07 \x01(\x03:\x02\x34\x32\x1a?\n\x0b\x42yNameEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12\x1f\n\x05value\x18\x02 \x01(\x0b\x32\x10.vt.kitchen3.New:\x02\x38\x01*#\n\x04Open\x12\r\n\tOPEN_ZERO\x10\x00\x12\x0c\n\x08OPEN_ONE\x10\x01\x42\x05\x92\x03\x02\x08\x01\x62\x08\x65\x64itionsp\xe8\x07')

_globals = globals()
_builder.BuildMessageAndEnumDescriptors(DESCRIPTOR, _globals)
_builder.BuildTopDescriptorsAndMessages(DESCRIPTOR, 'kitchen3_pb2', _globals)
if not _descriptor._USE_C_DESCRIPTORS:
  _globals['DESCRIPTOR']._loaded_options = None
  _globals['DESCRIPTOR']._serialized_options = b'\222\003\002\010\001'
  _globals['_NEW_BYNAMEENTRY']._loaded_options = None
  _globals['_NEW_BYNAMEENTRY']._serialized_options = b'8\001'
  _globals['_NEW'].fields_by_name['implicit']._loaded_options = None
  _globals['_NEW'].fields_by_name['implicit']._serialized_options = b'\252\001\002\010\002'
  _globals['_NEW'].fields_by_name['delimited']._loaded_options = None
  _globals['_NEW'].fields_by_name['delimited']._serialized_options = b'\252\001\002(\002'
  _globals['_NEW'].fields_by_name['expanded']._loaded_options = None
  _globals['_NEW'].fields_by_name['expanded']._serialized_options = b'\252\001\002\030\002'
  _globals['_OPEN']._serialized_start=323
  _globals['_OPEN']._serialized_end=358
  _globals['_NEW']._serialized_start=32
  _globals['_NEW']._serialized_end=321
  _globals['_NEW_BYNAMEENTRY']._serialized_start=258
  _globals['_NEW_BYNAMEENTRY']._serialized_end=321
# @@protoc_insertion_point(module_scope)
