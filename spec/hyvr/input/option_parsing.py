import sys
from copy import deepcopy
__all__ = ['Section', 'Option', 'MissingSectionError', 'MissingOptionError', 'ShapeError', 'assert_exists']

class Section:

    def __init__(self, name, options):
        self.name = name
        self.options = deepcopy(options)
        self.optionnames = [o.name for o in options]

    def parse(self, section_dict):
        self.dict = section_dict
        for option in section_dict:
            if option not in self.optionnames:
                print('Warning: Unknown option: {:s} in section {:s}'.format(option, self.name), file=sys.stderr)
        for option, name in zip(self.options, self.optionnames):
            self.dict[name] = option.parse(self)
        return self.dict

    def __repr__(self):
        repr = 'Section(name={:s},options='.format(self.name)
        for name in self.optionnames:
            repr += name + ','
        repr += ')'
        return repr

class Option:

    def __init__(self, name, dtype, optional=False, default=None, shape=-1, datatype=None, validation_func=lambda x: True, alternatives=[]):
        self.name = name
        self.dtype = dtype
        self.optional = optional
        self.default = default
        self.shape = shape
        self.datatype = datatype
        self.validation_func = validation_func
        if not isinstance(alternatives, list):
            alternatives = [alternatives]
        self.alternatives = alternatives
        if self.dtype == list:
            if self.shape is None:
                raise ValueError('Option ' + self.name + ' has type list, but no shape was given.')
            if self.datatype is None:
                raise ValueError('Option ' + self.name + ' has type list, but no datatype for its elements was given.')

    def __repr__(self):
        return 'Option(name={:s}, dtype={:s}, optional={:s}, default={:s}, shape={:s}, datatype={:})'.format(self.name, str(self.dtype), str(self.optional), str(self.default), str(self.shape), str(self.datatype))

    def parse(self, section):
        alternatives = deepcopy(self.alternatives)
        while len(alternatives) != 0 and self.name not in section.dict:
            other_name = alternatives.pop(0)
            if other_name in section.dict:
                section.dict[self.name] = section.dict[other_name]
                del section.dict[other_name]
                break
        if not self.optional:
            assert_exists(self.name, section.dict, section.name)
        if self.name not in section.dict:
            return self.default
        elif self.dtype != list:
            if self.dtype == bool:
                value = parse_bool(section, self.name)
            else:
                value = self.dtype(section.dict[self.name])
            if not self.validation_func(value):
                raise ValueError('Invalid input for option ' + self.name + ' in section ' + section.name)
            return value
        else:
            value = parse_list(section.dict[self.name], self.datatype)
            if not all_true(self.validation_func, value):
                raise ValueError('Invalid input for option ' + self.name + ' in section ' + section.name)
            shape = deepcopy(self.shape)
            if shape == -1:
                if not isinstance(value, list):
                    value = [value]
                return value
            if isinstance(shape, str):
                if shape not in section.dict:
                    raise ValueError(self.name + ' in ' + section.name + ' has an invalid ' + 'shape because the options whose shape it should have ' + 'does not exist. Check your option definitions!')
                shape = get_shape(section.dict[shape])
            if isinstance(shape, int):
                shape = [shape]
            for i in range(len(shape)):
                if isinstance(shape[i], str):
                    shape[i] = len(section.dict[shape[i]])
            if is_flat(shape):
                real_shape = get_shape(value)
                if isinstance(real_shape, (list, tuple)):
                    flat_shape_value = try_flattening_shape(real_shape)
                    shape = get_positive_shape(shape, flat_shape_value)
                    if flat_shape_value != shape[-len(flat_shape_value):]:
                        raise ShapeError(self.name, section.name)
                    if any(map(lambda x: x == -1, shape)):
                        depth = numdim(value)
                        mindepth = len(shape) - shape.index(-1) + 1
                        if depth < mindepth:
                            raise ValueError('Option ' + self.name + ' in section ' + section.name + ' can not be expanded!')
                    shape = expand_shape(shape)
            value = expand_to_shape(shape, value)
            if not compare_shapes(shape, get_shape(value)):
                raise ShapeError(self.name, section.name)
            return value

def numdim(l):
    if not isinstance(l, (list, tuple)):
        return 0
    if not isinstance(l[-1], (list, tuple)):
        return 1
    else:
        return 1 + numdim(l[-1])

def _get_shape(l):
    depth = numdim(l)
    if depth == 0:
        return -1
    if depth == 1:
        return len(l)
    else:
        return [_get_shape(s) for s in l]

def get_shape(l):
    s = _get_shape(l)
    if s == -1:
        return 1
    shape = [s]
    for i in range(numdim(s)):
        s = _get_shape(s)
        shape.append(s)
    return shape[::-1]

def is_flat(shape):
    return all(map(lambda x: numdim(x) == 0, shape))

def try_flattening_shape(shape):
    depth = numdim(shape)
    flat = [shape[0]]
    for i in range(1, depth):
        flat_list = unroll(shape[i])
        if all_true(lambda x: x == flat_list[0], flat_list):
            flat.append(flat_list[0])
        else:
            flat.append(-1)
    return flat

def get_positive_shape(shape_in_option, shape_in_file):
    shape = deepcopy(shape_in_option)
    for i in range(len(shape_in_file)):
        if shape[len(shape) - 1 - i] == -1:
            shape[len(shape) - 1 - i] = shape_in_file[len(shape_in_file) - 1 - i]
    return shape

def unroll(l):
    if numdim(l) == 0:
        return [l]
    if numdim(l) == 1:
        return l
    else:
        unrolled = []
        for li in l:
            unrolled += unroll(li)
        return unrolled

def expand_shape(shape):
    expanded = [shape[0]]
    for i in range(1, len(shape)):
        next = [shape[i]] * shape[i - 1]
        for j in range(1, i):
            next = [next] * shape[j]
        expanded.append(next)
    return expanded

def expand_to_shape(shape, value):
    depth = numdim(value)
    if depth != len(shape):
        value = _expand_to_shape(shape[-1 - depth], value)
    return value

def _expand_to_shape(shape, value):
    if isinstance(shape, int):
        value = [value] * shape
        return value
    else:
        return [_expand_to_shape(s, value) for s in shape]

def compare_shapes(s1, s2):
    d1 = numdim(s1)
    d2 = numdim(s2)
    if d1 != d2:
        return False
    else:
        l1 = unroll(s1)
        l2 = unroll(s2)
        if len(l1) != len(l2):
            return False
        else:
            for i in range(len(l1)):
                if l1[i] != l2[i] and l1[i] != -1 and (l2[i] != -1):
                    return False
            return True

def assert_exists(option, dictionary, section_name):
    if option not in dictionary:
        raise MissingOptionError(option, section_name)

def all_true(func, l):
    if not isinstance(l, (list, tuple)):
        return func(l)
    else:
        return all([all_true(func, li) for li in l])

def parse_list(string, dtype):
    s = string.replace(' ', '')
    if s[0] == '[':
        s = s[1:-1]
    else:
        return dtype(s)
    if s[0] == '[':
        splitted = s.split('],')
        for i in range(len(splitted) - 1):
            splitted[i] += ']'
        l = list(map(lambda x: parse_list(x, dtype), splitted))
    else:
        splitted = s.split(',')
        l = list(map(dtype, splitted))
    return l

def parse_bool(section, optionname):
    string = section.dict[optionname]
    if string.lower() == 'true' or string.lower() == 'yes':
        return True
    elif string.lower() == 'false' or string.lower() == 'no':
        return False
    elif string.isdigit():
        return bool(int(string))
    else:
        raise ValueError('Option ' + optionname + ' in section ' + section.name + ' is not a valid boolean!')

class ShapeError(Exception):

    def __init__(self, optionname, sectionname):
        message = 'Option ' + optionname + ' in section ' + sectionname + ' has wrong shape!'
        super().__init__(message)

class MissingOptionError(Exception):

    def __init__(self, optionname, sectionname):
        message = 'Option ' + optionname + ' in section ' + sectionname + ' is missing!'
        super().__init__(message)

class MissingSectionError(Exception):

    def __init__(self, sectionname):
        message = 'Section ' + sectionname + ' is missing!'
        super().__init__(message)
