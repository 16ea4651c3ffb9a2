"""Contracts of text grids."""


def name_groups(self):
    names = [g.name for g in self.tier_groups]
    if len([x for x in names if names.count(x) > 1]) > 0:
        warnings.warn("")
        return
    for i, x in enumerate(names):
        setattr(self, x, self.tier_groups[i])


@spec("AlignedTextGrid._set_group_names", props="C22")
def set_group_names(self):
    name_groups(self)


@spec("AlignedTextGrid.tier_groups:get", props="C08 C20 C15")
def tier_groups_get(self):
    if self._tier_groups:
        return self._tier_groups
    return []


@spec("AlignedTextGrid.tier_groups:set", props="C08 C03")
def tier_groups_set(self, new: "list:TierGroup|PointsGroup"):
    if not all([isinstance(g, TierGroupMixins) for g in new]):
        raise ValueError
    if len(new) >= 1:
        self._tier_groups = new
        self.contains = self._tier_groups


@spec("AlignedTextGrid.tier_groups:set", props="C03")
def tier_groups_set_tiers(self, new: "list:SequenceTier|SequencePointTier"):
    if len(new) > 0:
        raise ValueError


@spec("AlignedTextGrid.__len__", props="C20")
def len_(self):
    return len(self.tier_groups)


@spec("AlignedTextGrid.__getitem__", props="C20")
def getitem(self, idx: "int"):
    return self.tier_groups[idx]


@spec("AlignedTextGrid.__getitem__", props="C20 C12")
def getitem_list(self, idx: "list:list:int"):
    if len(idx) != len(self.tier_groups):
        raise IndexError
    if len(idx) == 0:
        raise IndexError
    return [g[i] for i, g in zip(idx, self.tier_groups)]


@spec("AlignedTextGrid.entry_classes:get", props="C16 C22 C04")
def entry_classes(self):
    return [g.entry_classes for g in self.tier_groups]


@spec("AlignedTextGrid.tier_names:get", props="C16 C22")
def tier_names(self):
    if len(self) == 0:
        raise ValueError
    return [g.tier_names for g in self.tier_groups]


@spec("AlignedTextGrid.xmin:get", props="C16")
def xmin(self):
    if len(self) == 0:
        raise ValueError
    return np.array([g.xmin for g in self.tier_groups]).min()


@spec("AlignedTextGrid.xmax:get", props="C16")
def xmax(self):
    if len(self) == 0:
        raise ValueError
    return np.array([g.xmax for g in self.tier_groups]).max()


@spec("AlignedTextGrid.shift", props="C09")
def shift(self, increment: "num"):
    for g in self.tier_groups:
        g.shift(increment)


@spec("AlignedTextGrid.get_intervals_at_time", props="C12")
def get_intervals_at_time(self, time: "num"):
    return [g.get_intervals_at_time(time) for g in self.tier_groups]


@spec("AlignedTextGrid.get_class_by_name", props="C22 C16")
def get_class_by_name(self, class_name: "str"):
    hits = [x for x in set([c for g in self.tier_groups for c in g.entry_classes]) if x.__name__ == class_name]
    if len(hits) == 1:
        return hits[0]
    if len(hits) > 1:
        warnings.warn("")
        return hits
    warnings.warn("")
    return None


@spec("AlignedTextGrid.return_textgrid", props="C10")
def return_textgrid(self):
    tg = Textgrid()
    used = []
    n = 0
    for g in self.tier_groups:
        for t in g:
            name = t.name
            while name in used:
                name = f"{t.name}_{n}"
                n += 1
            used.append(name)
            tg.addTier(tier=t.return_tier(name))
    return tg


@spec("AlignedTextGrid.save_textgrid", props="C10")
def save_textgrid(self, save_path: "str", format: "str" = "long_textgrid"):
    self.return_textgrid().save(fn=save_path, format=format, includeBlankSpaces=True)


@spec("AlignedTextGrid.append", props="C25 C05 C22 C08 C11")
def append(self, tier_group: "TierGroup"):
    self._reclone_classes(tier_group.entry_classes)
    classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
    for c, t in zip(classes, tier_group):
        t.__init__(t, entry_class=c)
    tier_group.__init__(tier_group)
    self.tier_groups = self.tier_groups + [tier_group]
    name_groups(self)


@spec("AlignedTextGrid.append", props="C25 C05 C22 C08 C11")
def append_points(self, tier_group: "PointsGroup"):
    self._reclone_classes(tier_group.entry_classes)
    classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
    for c, t in zip(classes, tier_group):
        t.__init__(t, entry_class=c)
    tier_group.__init__(tier_group)
    self.tier_groups = self.tier_groups + [tier_group]
    name_groups(self)


@spec("AlignedTextGrid._swap_classes", props="C05 C11")
def swap_classes(self, orig_classes: "list:cls:SequenceInterval|SequencePoint", new_classes: "list:cls:SequenceInterval|SequencePoint"):
    names = [c.__name__ for c in new_classes]
    return [new_classes[names.index(c.__name__)] for c in orig_classes]


def reclone(self, flat):
    uniq = list(set(flat))
    known = [c.__name__ for c in self._cloned_classes]
    points = []
    for p in [c for c in uniq if issubclass(c, SequencePoint)]:
        if p.__name__ in known:
            points.append(self._cloned_classes[known.index(p.__name__)])
        else:
            points.append(clone_class(p))
    tops = []
    for t in [c for c in uniq if issubclass(c, SequenceInterval) if issubclass(c.superset_class, Top)]:
        if t.__name__ in known:
            tops.append(self._cloned_classes[known.index(t.__name__)])
        else:
            tops.append(clone_class(t))
    chains = []
    for t in tops:
        chains += get_class_hierarchy(t, [])
    self._cloned_classes += points + chains


@spec("AlignedTextGrid._reclone_classes", props="C05")
def reclone_flat(self, entry_classes: "list:cls:SequenceInterval|SequencePoint"):
    reclone(self, entry_classes)


@spec("AlignedTextGrid._reclone_classes", props="C05")
def reclone_nested(self, entry_classes: "list:list:cls:SequenceInterval|SequencePoint"):
    reclone(self, [c for g in entry_classes for c in g])


@spec("AlignedTextGrid._extend_classes", props="C11", opts="nowarn")
def extend_flat(self, tg: "praatio.Textgrid", entry_classes: "list:cls:SequenceInterval|SequencePoint"):
    tops = [i for i, c in enumerate([c.superset_class for c in entry_classes]) if issubclass(c, Top)]
    if len(entry_classes) == 1 or len(tops) <= 1:
        return [entry_classes] * (len(tg.tiers) // len(entry_classes))
    return entry_classes


@spec("AlignedTextGrid._extend_classes", props="C11")
def extend_nested(self, tg: "praatio.Textgrid", entry_classes: "list:list:cls:SequenceInterval|SequencePoint"):
    return entry_classes


@spec("AlignedTextGrid._relate_tiers", props="C11 C05 C08")
def relate_tiers(self, tg_tiers: "list:list:praatio.IntervalTier", entry_classes: "list:list:cls:SequenceInterval|SequencePoint"):
    groups = []
    self._reclone_classes(entry_classes)
    entry_classes = [self._swap_classes(x, self._cloned_classes) for x in entry_classes]
    for tiers, classes in zip(tg_tiers, entry_classes):
        intervals = []
        points = []
        for t, c in zip(tiers, classes):
            if issubclass(c, SequencePoint):
                points.append(SequencePointTier(t, c))
            if issubclass(c, SequenceInterval):
                intervals.append(SequenceTier(t, c))
        if len(intervals) > 0:
            groups.append(TierGroup(intervals))
        if len(points) > 0:
            groups.append(PointsGroup(points))
    return groups


def load(self, tg, entry_classes):
    tiers, classes = self._nestify_tiers(tg, entry_classes)
    self.tier_groups = self._relate_tiers(tiers, classes)
    self.cleanup()


@spec("AlignedTextGrid._process_textgrid_arg", props="C11")
def process_groups(self, arg: "list:TierGroup|PointsGroup", entry_classes: "list:cls:SequenceInterval|SequencePoint"):
    REQUIRE(len(arg) > 0)
    for g in arg:
        self.append(g)


@spec("AlignedTextGrid._process_textgrid_arg", props="C11")
def process_path(self, arg: "str", entry_classes: "list:cls:SequenceInterval|SequencePoint"):
    load(self, openTextgrid(fnFullPath=str(arg), includeEmptyIntervals=True, duplicateNamesMode="rename"), entry_classes)


@spec("AlignedTextGrid._process_textgrid_arg", props="C11")
def process_textgrid(self, arg: "praatio.Textgrid", entry_classes: "list:cls:SequenceInterval|SequencePoint"):
    load(self, arg, entry_classes)


@spec("AlignedTextGrid.__init__", props="C11 C08 C22 C15 C05")
def init(self, textgrid=None, entry_classes: "list:cls:SequenceInterval|SequencePoint" = [SequenceInterval], *, textgrid_path: "str?" = None):
    self._cloned_classes = []
    self._tier_groups = []
    self.contains = self.tier_groups
    if textgrid_path:
        textgrid = textgrid_path
    if not textgrid:
        warnings.warn("")
        return
    self._process_textgrid_arg(textgrid, entry_classes)
    self.contains = self.tier_groups
    for g in self.tier_groups:
        g.within = self
    name_groups(self)


def deal(textgrid, classes):
    tiers = []
    k = 0
    for i, group in enumerate(classes):
        tiers.append([])
        for c in group:
            tiers[i].append(textgrid.tiers[k])
            k += 1
    return (tiers, classes)


@spec("AlignedTextGrid._nestify_tiers", props="C11")
def nestify_nested(self, textgrid: "praatio.Textgrid", entry_classes: "list:list:cls:SequenceInterval|SequencePoint"):
    return deal(textgrid, entry_classes)


@spec("AlignedTextGrid._nestify_tiers", props="C11")
def nestify_flat(self, textgrid: "praatio.Textgrid", entry_classes: "list:cls:SequenceInterval|SequencePoint"):
    tops = [i for i, c in enumerate([c.superset_class for c in entry_classes]) if issubclass(c, Top)]
    if len(entry_classes) == 1 or len(tops) <= 1:
        return deal(textgrid, [entry_classes] * (len(textgrid.tiers) // len(entry_classes)))
    tier_list = []
    entry_list = []
    for top in tops:
        tiers = [textgrid.tiers[top]]
        classes = [entry_classes[top]]
        done = False
        while not done:
            last = classes[-1]
            if issubclass(last.subset_class, Bottom):
                done = True
                break
            if last.subset_class not in entry_classes:
                done = True
                break
            nxt = entry_classes.index(last.subset_class)
            tiers.append(textgrid.tiers[nxt])
            classes.append(entry_classes[nxt])
        tier_list.append(tiers)
        entry_list.append(classes)
    return (tier_list, entry_list)


def pad(tg, start, end):
    blanks = [c((start, end, "")) for c in tg.entry_classes]
    for t, x in zip(tg, blanks):
        t.append(x, re_relate=False)


@spec("AlignedTextGrid.cleanup", props="C17")
def cleanup(self):
    for g in self.tier_groups:
        if isinstance(g, TierGroup):
            g.cleanup()
    gs = [g for g in self.tier_groups if isinstance(g, TierGroup)]
    starts = np.array([g.xmin for g in gs])
    ends = np.array([g.xmax for g in gs])
    if len(gs) < 1:
        return
    if np.allclose(starts.min(), starts.max()) and np.allclose(ends.min(), ends.max()):
        return
    for g in gs:
        if not np.allclose(g.xmin, starts.min()):
            pad(g, starts.min(), g.xmin)
    for g in gs:
        if not np.allclose(g.xmax, ends.max()):
            pad(g, g.xmax, ends.max())


def relink_tiers(tiers):
    for t in tiers:
        t.superset_class = t.entry_class.superset_class
        t.subset_class = t.entry_class.subset_class


def install(self, groups):
    self.tier_groups = groups
    for g in self.tier_groups:
        g.within = self
    self.contains = self.tier_groups
    self._set_group_names()


@spec("AlignedTextGrid.interleave_class", props="C24 C05 C22 C08")
def interleave_class(self, name: "str", above: "str?" = None, below: "str?" = None, timing_from: "str" = "below", copy_labels=True):
    if above and below:
        raise ValueError
    if not (above or below):
        raise ValueError
    if not name:
        raise ValueError
    new = custom_classes([name])[0]
    if above:
        chosen = self.get_class_by_name(above)
        up = copy(chosen.superset_class)
        down = chosen
    if below:
        chosen = self.get_class_by_name(below)
        up = chosen
        down = copy(chosen.subset_class)
    if timing_from == "below":
        source = down
    elif timing_from == "above":
        source = up
    else:
        raise ValueError
    new.set_superset_class(up)
    new.set_subset_class(down)
    groups = []
    for g in self.tier_groups:
        if not chosen in g.entry_classes:
            groups.append(g)
        else:
            model = [t for t in g if t.entry_class is source][0]
            tier = SequenceTier([new(x) for x in model])
            if not copy_labels:
                for x in tier:
                    x.label = ""
            classes = g.entry_classes
            tiers = g.tier_list
            if not down in classes:
                classes.append(down)
            tiers.insert(classes.index(down), tier)
            relink_tiers(tiers)
            group = TierGroup(tiers)
            group.name = g.name
            groups.append(group)
    install(self, groups)


@spec("AlignedTextGrid.pop_class", props="C24 C22 C08 C02")
def pop_class(self, name: "str"):
    groups = []
    for g in self.tier_groups:
        names = [t.entry_class.__name__ for t in g]
        if not name in names:
            groups.append(g)
        elif len(names) == 1:
            warnings.warn("")
        else:
            gone, = [t for t in g if t.entry_class.__name__ == name]
            keep = [t for t in g if t.entry_class.__name__ != name]
            up = gone.entry_class.superset_class
            down = gone.entry_class.subset_class
            up.set_subset_class(down)
            down.set_superset_class(up)
            relink_tiers(keep)
            group = TierGroup(keep)
            for x in group[-1]:
                x.subset_list = []
                x.contains = []
            group.name = g.name
            groups.append(group)
    install(self, groups)
