"""Contracts of point tiers and points groups."""


def place(self):
    """each point knows its tier; points are chained in time order; the tier contains them"""
    seqs = self._sequence_list
    n = len(seqs)
    for i in range(n):
        s = seqs[i]
        s.intier = self
        s.tiername = self.name
        if i == 0:
            s.set_initial()
        else:
            s.set_prev(seqs[i - 1])
        if i == n - 1:
            s.set_final()
        else:
            s.set_fol(seqs[i + 1])
    self.contains = seqs


def build(self, entries, entry_class, name):
    with OPTIONAL:
        self.entry_list = entries
    self.entry_class = entry_class
    self.name = name
    order = np.argsort([x.time for x in entries])
    self.entry_list = [entries[i] for i in order]
    self.sequence_list = SequenceList()
    for x in self.entry_list:
        self._sequence_list.append(entry_class._cast(x))
    place(self)


@spec("SequencePointTier.__init__", props="C11 C07 C19 C03 C15 C01")
def init_list(self, tier: "list:SequencePoint" = [], entry_class: "cls:SequencePoint?" = None):
    if entry_class is None:
        entry_class = SequencePoint if len(tier) == 0 else tier[0].entry_class
    build(self, tier, entry_class, entry_class.__name__)


@spec("SequencePointTier.__init__", props="C11 C07 C19 C03 C22")
def init_tier(self, tier: "SequencePointTier" = [], entry_class: "cls:SequencePoint?" = None):
    if entry_class is None:
        entry_class = SequencePoint if len(tier) == 0 else tier[0].entry_class
    name = entry_class.__name__
    if tier.name != tier.entry_class.__name__:
        name = tier.name
    build(self, tier._sequence_list, entry_class, name)


@spec("SequencePointTier.__init__", props="C11 C03 C22")
def init_praat(self, tier: "praatio.PointTier" = [], entry_class: "cls:SequencePoint?" = None):
    if entry_class is None:
        entry_class = SequencePoint
    build(self, tier.entries, entry_class, tier.name)


@spec("SequencePointTier.sequence_list:set", props="C07 C01 C08 C06 C15")
def sequence_list_set(self, new: "list:SequencePoint"):
    self._sequence_list = SequenceList(*new)
    place(self)


@spec("SequencePointTier.times:get", props="C16 C12 C09")
def times_get(self):
    return self._sequence_list.starts


@spec("SequencePointTier.times:set", props="C16 C09")
def times_set(self, times: "list:num"):
    if len(self._sequence_list) != len(times):
        raise Exception
    for i in range(len(times)):
        self._sequence_list[i].time = times[i]


@spec("SequencePointTier._shift", props="C09")
def shift(self, increment: "num"):
    for x in self._sequence_list:
        x._time = x._time + increment


@spec("SequencePointTier.xmin:get", props="C16 C25")
def xmin(self):
    if len(self._sequence_list) == 0:
        return None
    return self._sequence_list.starts.min()


@spec("SequencePointTier.xmax:get", props="C16 C25 C09")
def xmax(self):
    if len(self._sequence_list) == 0:
        return None
    return self._sequence_list.starts.max()


@spec("SequencePointTier.cleanup", props="C17")
def cleanup(self):
    pass


@spec("SequencePointTier.get_nearest_point_index", props="C12 C21")
def get_nearest_point_index(self, time: "num"):
    return np.abs(self.times - time).argmin()


@spec("SequencePointTier.get_nearest_point", props="C12 C21")
def get_nearest_point(self, time: "num"):
    return self._sequence_list[self.get_nearest_point_index(time)]


@spec("SequencePointTier.return_tier", props="C10")
def return_tier(self, name: "str?" = None):
    if name is None:
        name = self.name
    return PointTier(name=name, entries=[x.return_point() for x in self._sequence_list])


# ---- groups -------------------------------------------------------------------------------

def group_up(self, tiers, name):
    self.tier_list = tiers
    self.contains = self.tier_list
    names = [x.__name__ for x in self.entry_classes]
    if len([x for x in names if names.count(x) > 1]) > 0:
        warnings.warn("")
    else:
        for i, x in enumerate(names):
            setattr(self, x, self.tier_list[i])
    if name:
        self._name = name
    else:
        self._name = self.make_name()


@spec("PointsGroup.__init__", props="C08 C11 C19 C22 C15")
def init_points_list(self, tiers: "list:SequencePointTier" = None):
    group_up(self, [t for t in tiers], None)


@spec("PointsGroup.__init__", props="C08 C11 C19 C22")
def init_points_group(self, tiers: "PointsGroup" = None):
    group_up(self, [t for t in tiers.tier_list], tiers.name)


@spec("PointsGroup.__init__", props="C15 C08 C22")
def init_points_default(self, tiers: "none" = None):
    group_up(self, [SequencePointTier()], None)


@spec("PointsGroup.get_nearest_points_index", "PointsGroup.get_intervals_at_time", props="C12")
def get_nearest_points_index(self, time: "num"):
    return [t.get_nearest_point_index(time) for t in self.tier_list]


@spec("PointsGroup.xmin:get", props="C16")
def group_xmin(self):
    return np.array([t.xmin for t in self.tier_list]).min()


@spec("PointsGroup.xmax:get", props="C16 C25 C09")
def group_xmax(self):
    return np.array([t.xmax for t in self.tier_list]).max()


@spec("PointsGroup.tier_names:get", props="C16 C22")
def tier_names(self):
    return [x.name for x in self.tier_list]
