"""Contracts of the class factory."""


def new_top():
    return type(f"Top_{len(Top.__subclasses__())}", (Top,), {})


def new_bottom():
    return type(f"Bottom_{len(Bottom.__subclasses__())}", (Bottom,), {})


def copy_of(cls):
    """a subclass with the same name and members"""
    return type(cls.__name__, (cls,), dict(cls.__dict__))


def fresh_class(name, base):
    return type(name, (base,), dict(base.__dict__))


@spec("func:custom_classes.clone_class", props="C05 C04")
def clone_interval(entry_class: "cls:SequenceInterval", recurse=False):
    if not issubclass(entry_class.superset_class, Top) and not recurse:
        raise Exception
    c = copy_of(entry_class)
    if issubclass(c.superset_class, Top):
        c.set_superset_class(new_top())
    if issubclass(c.subset_class, Bottom):
        c.set_subset_class(new_bottom())
    if not c is c.subset_class.superset_class and issubclass(c.subset_class, SequenceInterval):
        c.set_subset_class(clone_class(c.subset_class, recurse=True))
    return c


@spec("func:custom_classes.clone_class", props="C05")
def clone_point(entry_class: "cls:SequencePoint", recurse=False):
    return copy_of(entry_class)


@spec("func:custom_classes.get_class_hierarchy", props="C04 C05 C15")
def get_class_hierarchy(entry_class: "cls:SequenceInterval", out_list: "list:cls:SequenceInterval?" = None):
    out = out_list
    if out is None:
        out = []
    if not issubclass(entry_class.superset_class, Top) and entry_class.superset_class not in out:
        out = get_class_hierarchy(entry_class.superset_class, out)
    if entry_class not in out:
        out.append(entry_class)
    if not issubclass(entry_class.subset_class, Bottom):
        out = get_class_hierarchy(entry_class.subset_class, out)
    return out


@spec("func:custom_classes.custom_classes", props="C04")
def custom_list(class_list: "list:str" = [], return_order: "list:str" = None, points: "list:int" = []):
    top = new_top()
    bottom = new_bottom()
    classes = [fresh_class(x, SequencePoint) if i in points else fresh_class(x, SequenceInterval) for i, x in enumerate(class_list)]
    chain = [x for x in classes if issubclass(x, SequenceInterval)]
    for i, c in enumerate(chain):
        if i == 0:
            c.set_superset_class(top)
        if i == len(chain) - 1:
            c.set_subset_class(bottom)
        else:
            c.set_subset_class(chain[i + 1])
    return [classes[class_list.index(x)] for x in return_order]


@spec("func:custom_classes.custom_classes", props="C04")
def custom_all(class_list: "list:str" = [], return_order: "none" = None, points: "list:int" = []):
    top = new_top()
    bottom = new_bottom()
    classes = [fresh_class(x, SequencePoint) if i in points else fresh_class(x, SequenceInterval) for i, x in enumerate(class_list)]
    chain = [x for x in classes if issubclass(x, SequenceInterval)]
    for i, c in enumerate(chain):
        if i == 0:
            c.set_superset_class(top)
        if i == len(chain) - 1:
            c.set_subset_class(bottom)
        else:
            c.set_subset_class(chain[i + 1])
    return [classes[class_list.index(x)] for x in class_list]


@spec("func:custom_classes.custom_classes", props="C04")
def custom_list_int(class_list: "list:str" = [], return_order: "list:int" = None, points: "list:int" = []):
    top = new_top()
    bottom = new_bottom()
    classes = [fresh_class(x, SequencePoint) if i in points else fresh_class(x, SequenceInterval) for i, x in enumerate(class_list)]
    chain = [x for x in classes if issubclass(x, SequenceInterval)]
    for i, c in enumerate(chain):
        if i == 0:
            c.set_superset_class(top)
        if i == len(chain) - 1:
            c.set_subset_class(bottom)
        else:
            c.set_subset_class(chain[i + 1])
    return [classes[i] for i in return_order]


@spec("func:custom_classes.custom_classes", props="C04")
def custom_one(class_list: "str" = [], return_order: "list:str" = None, points: "list:int" = []):
    top = new_top()
    bottom = new_bottom()
    if len(points) == 0:
        c = fresh_class(class_list, SequenceInterval)
        c.set_superset_class(top)
        c.set_subset_class(bottom)
        return c
    return fresh_class(class_list, SequencePoint)
