"""files: what is saved is what is read back"""
from ..oblig import *
from .world import *
from . import disk

SPEC = '''
import json
import os
import pickle
from ghedt import utilities as u

def dumped(name, d):
    with open(name + '.json', 'w') as f:
        f.write(json.dumps(d, indent=4))

def dumped_code(name, d):
    u.js_dump(name, d)

def indented(name, d, n):
    with open(name + '.json', 'w') as f:
        f.write(json.dumps(d, indent=n))

def indented_code(name, d, n):
    u.js_dump(name, d, indent=n)

def loaded(name):
    with open(name) as f:
        return json.loads(f.read())

def loaded_code(name):
    return u.js_load(name)

def directory(name):
    if not os.path.exists(name):
        os.makedirs(name)

def directory_code(name):
    u.create_if_not(name)

def saved(x, name):
    with open(name + '.obj', 'wb') as f:
        f.write(pickle.dumps(x))

def saved_code(x, name):
    u.create_input_file(x, file_name=name)

def saved_there(x):
    saved(x, 'ghedt_input')

def saved_there_code(x):
    u.create_input_file(x)

def read(name):
    with open(name, 'rb') as f:
        return pickle.loads(f.read())

def read_code(name):
    return u.read_input_file(name)
'''
U = 'ghedt.utilities.'
# names a user may give, with dots and folders in them
NAMES = ['results', 'results.v2', 'out/results', 'out.d/run.1', 'a b', '.x',
         'plan.json']


def rules(C):
    C.load(SPEC)
    C.load(disk.SOURCE, 'disk')
    for name, where, spec, inputs in (
            ('JSON file', 'js_dump', 'dumped', [('name', 'str'),
                                                ('d', 'any')]),
            ('indented JSON file', 'js_dump', 'indented',
             [('name', 'str'), ('d', 'any'), ('n', 'posint')]),
            ('JSON file read', 'js_load', 'loaded', [('name', 'str')]),
            ('directory', 'create_if_not', 'directory', [('name', 'str')]),
            ('object saved', 'create_input_file', 'saved',
             [('x', 'obj'), ('name', 'str')]),
            ('object saved under the usual name', 'create_input_file',
             'saved_there', [('x', 'obj')]),
            ('object read', 'read_input_file', 'read', [('name', 'str')])):
        C.equiv(name, U + where, spec, inputs, code='spec.%s_code' % spec,
                cuts=disk.DISK, pick=disk.effects,
                domains={'name': lambda r: r.choice(NAMES)})
