"""Contracts of tier groups."""


def same_classes(self, new):
    if len(self.tier_list) != len(new.tier_list):
        raise ValueError
    mine = [x.__name__ for x in self.entry_classes]
    theirs = [x.__name__ for x in new.entry_classes]
    for i in range(len(mine)):
        if mine[i] != theirs[i]:
            raise ValueError


def name_tiers(self):
    names = [x.__name__ for x in self.entry_classes]
    if len([x for x in names if names.count(x) > 1]) > 0:
        warnings.warn("")
        return
    for i, x in enumerate(names):
        setattr(self, x, self.tier_list[i])


def fill_gaps(lowers, lower_tier):
    """blank intervals between the children that one parent is about to receive"""
    if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
        bounds = np.unique(np.concatenate([lowers.starts, lowers.ends]))
        gap_starts = bounds[:-1][~np.isin(bounds[:-1], lowers.starts)]
        gap_ends = bounds[1:][~np.isin(bounds[1:], lowers.ends)]
        for s, e in zip(gap_starts, gap_ends):
            new = lowers[0].entry_class((s, e, ""))
            lowers.append(new)
            lower_tier.append(new, re_relate=False)


def relate(upper, lower, delay):
    """give every upper interval the lower intervals that overlap it most"""
    lower_starts = lower.starts
    lower_ends = lower.ends
    shared = np.minimum.outer(lower_ends, upper.ends) - np.maximum.outer(lower_starts, upper.starts)
    if shared.size < 1:
        return
    best = shared.max(axis=1)
    owner = shared.argmax(axis=1)
    where = np.arange(len(lower))
    firsts = np.array([where[owner == i].min() if (owner == i).sum() > 0 else -1 for i in range(len(upper))])
    stops = np.array([where[owner == i].max() + 1 if (owner == i).sum() > 0 else -1 for i in range(len(upper))])
    starts = np.ma.masked_array(firsts, firsts < 0)
    ends = np.ma.masked_array(stops, stops < 0)
    off = lower_ends - lower_starts - best
    any_off = bool(np.any(off > 0))
    if any_off:
        warnings.warn("")
    parts = []
    for i, _ in enumerate(upper):
        if np.ma.is_masked(starts[i]):
            parts.append(SequenceList())
        else:
            parts.append(SequenceList(*lower[starts[i]:ends[i]]))
    for p in parts:
        fill_gaps(p, lower)
    u_durs = np.array([u.end - u.start for u in upper])
    l_durs = np.array([(p.ends - p.starts).sum() for p in parts])
    squish = not np.allclose(u_durs, l_durs)
    for u, p in zip(upper, parts):
        u.set_subset_list(p)
        if len(u) == 0:
            new = u.subset_class((u.start, u.end, ""))
            u.append(new)
            lower.append(new, re_relate=False)
        if any_off and not delay:
            a = np.array([u.start, u.first.start]).max()
            b = np.array([u.end, u.last.end]).min()
            u.start = a
            u.first.start = a
            u.end = b
            u.last.end = b
        if squish and not delay:
            u.cleanup()


def group_up(self, tiers, name, delay):
    self.tier_list = self._arrange_tiers(tiers)
    if name:
        self._name = name
    else:
        self._name = self.make_name()
    name_tiers(self)
    for t in tiers:
        for x in t:
            x.remove_superset()
    for i, t in enumerate(self.tier_list):
        if i == len(self.tier_list) - 1:
            break
        relate(self.tier_list[i], self.tier_list[i + 1], delay)


@spec("TierGroup.__init__", props="C02 C08 C11 C17 C19 C22 C15 C03")
def init_list(self, tiers: "list:SequenceTier" = None, delay_cleanup=False):
    group_up(self, tiers, None, delay_cleanup)


@spec("TierGroup.__init__", props="C02 C08 C11 C17 C19 C22")
def init_group(self, tiers: "TierGroup" = None, delay_cleanup=False):
    group_up(self, [t for t in tiers.tier_list], tiers.name, delay_cleanup)


@spec("TierGroup.__init__", props="C15 C08 C22 C03")
def init_default(self, tiers: "none" = None, delay_cleanup=False):
    group_up(self, [SequenceTier()], None, delay_cleanup)


@spec("TierGroup._arrange_tiers", props="C08 C11 C03")
def arrange(self, tiers: "list:SequenceTier"):
    out = []
    kinds = [x.entry_class for x in tiers]
    seed = tiers[0]
    done = False
    while not done:
        if issubclass(seed.superset_class, Top):
            top = tiers.index(seed)
            done = True
            break
        elif seed.superset_class not in kinds:
            top = tiers.index(seed)
            done = True
            break
        else:
            seed = tiers[kinds.index(seed.superset_class)]
    out.append(tiers[top])
    done = False
    while not done:
        cur = out[-1]
        if issubclass(cur.subset_class, Bottom):
            done = True
            break
        else:
            try:
                j = kinds.index(cur.subset_class)
            except ValueError:
                break
            out.append(tiers[j])
    self.contains = out
    return out


@spec("TierGroup.__getitem__", "PointsGroup.__getitem__", props="C20")
def getitem(self, idx: "int"):
    return self.tier_list[idx]


@spec("TierGroup.__getitem__", "PointsGroup.__getitem__", props="C20 C12")
def getitem_list(self, idx: "list:int"):
    if len(idx) != len(self.tier_list):
        raise Exception
    return [self.tier_list[i][idx[i]] for i in range(len(self.tier_list))]


@spec("TierGroup.__len__", "PointsGroup.__len__", props="C20")
def len_(self):
    return len(self.tier_list)


@spec("TierGroup.entry_classes:get", "PointsGroup.entry_classes:get", props="C16 C22")
def entry_classes(self):
    return [x.entry_class for x in self.tier_list]


@spec("TierGroup.tier_names:get", props="C16 C22")
def tier_names(self):
    return [x.name for x in self.tier_list]


@spec("TierGroup.xmin:get", props="C16")
def xmin(self):
    return np.array([t.xmin for t in self.tier_list]).min()


@spec("TierGroup.xmax:get", props="C16 C25 C09")
def xmax(self):
    return np.array([t.xmax for t in self.tier_list]).max()


@spec("TierGroup._project_up", props="C17")
def project_up(self, interval: "SequenceInterval"):
    if issubclass(interval.superset_class, Top):
        return
    up = interval.intier.within[interval.intier.within_index - 1]
    if up.get_interval_at_time(interval.start + (interval.end - interval.start) / 2) is not None:
        return
    up.append(up.entry_class((interval.start, interval.end, "")), re_relate=False)


@spec("TierGroup.cleanup", props="C17 C02")
def cleanup(self):
    loose = False
    for t in self.tier_list:
        if not np.allclose(t.starts[1:], t.ends[:-1]):
            loose = True
        if issubclass(t.entry_class, Top):
            continue
        if any([not x.within for x in t]):
            for x in t:
                if not x.within:
                    self._project_up(x)
            self.re_relate()
    if not loose:
        return
    for t in self.tier_list:
        t.cleanup()
    self.re_relate()


@spec("TierGroup.shift", "PointsGroup.shift", props="C09")
def shift(self, increment: "num"):
    for t in self.tier_list:
        t._shift(increment)


@spec("TierGroup.get_intervals_at_time", props="C12")
def get_intervals_at_time(self, time: "num"):
    return [t.get_interval_at_time(time) for t in self.tier_list]


# ---- shared by both kinds of group ------------------------------------------------------

@spec("TierGroup.__add__", props="C25 C03 C22")
def add(self, new: "TierGroup"):
    same_classes(self, new)
    out = self.__class__([self.tier_list[i] + new.tier_list[i] for i in range(len(self.tier_list))])
    out._name = self.name
    return out


@spec("PointsGroup.__add__", props="C25 C03 C22")
def add_points(self, new: "PointsGroup"):
    same_classes(self, new)
    out = self.__class__([self.tier_list[i] + new.tier_list[i] for i in range(len(self.tier_list))])
    out._name = self.name
    return out


def add_tier(self, new, interval_tiers):
    if self.within:
        self.within._reclone_classes([new.entry_class])
        new.__init__(new, entry_class=self.within._swap_classes([new.entry_class], self.within._cloned_classes)[0])
    have = set()
    possible = {SequenceBaseClass}
    if len(self.tier_list) > 0:
        if interval_tiers:
            possible = set([c for g in [[t.subset_class, t.superset_class] for t in self.tier_list] for c in g])
        have = {t.entry_class for t in self.tier_list}
    if any([issubclass(c, new.entry_class) or issubclass(new.entry_class, c) for c in have]):
        raise ValueError
    if not any([issubclass(c, new.entry_class) or issubclass(new.entry_class, c) for c in possible]):
        raise ValueError
    tiers = self.tier_list
    tiers += [new]
    self.__init__(tiers)


@spec("TierGroup.append", props="C25 C03 C05 C22")
def append(self, new: "SequenceTier"):
    add_tier(self, new, True)


@spec("PointsGroup.append", props="C25 C03 C05 C22")
def append_points(self, new: "SequencePointTier"):
    add_tier(self, new, False)


@spec("TierGroup.append", props="C03")
def append_wrong(self, new: "SequencePointTier"):
    raise ValueError


@spec("PointsGroup.append", props="C03")
def append_points_wrong(self, new: "SequenceTier"):
    raise ValueError


@spec("TierGroup.concat", props="C25 C09 C03")
def concat(self, new: "TierGroup"):
    same_classes(self, new)
    by = self.xmax
    for mine, theirs in zip(self.tier_list, new.tier_list):
        for x in theirs:
            if x.super_instance is not None:
                continue
            if x in mine:
                continue
            x._shift(by)
            mine.append(x)


@spec("PointsGroup.concat", props="C25 C09 C03")
def concat_points(self, new: "PointsGroup"):
    same_classes(self, new)
    by = self.xmax
    for mine, theirs in zip(self.tier_list, new.tier_list):
        for x in theirs:
            if x in mine:
                continue
            x._shift(by)
            mine.append(x)


@spec("TierGroup.name:get", "PointsGroup.name:get", props="C22")
def name_get(self):
    if self._name:
        return self._name
    self._name = self.make_name()
    return self._name


@spec("TierGroup.name:set", "PointsGroup.name:set", props="C22")
def name_set(self, name: "str"):
    self._name = name


@spec("TierGroup.re_relate", "PointsGroup.re_relate", props="C02 C08", opts="noret")
def re_relate(self):
    self.__init__(self)


@spec("TierGroup.get_longest_name_string", "PointsGroup.get_longest_name_string", props="C22")
def longest(self, a: "str", b: "str"):
    m = SequenceMatcher(a=a, b=b).get_matching_blocks()[0]
    if m.size < 1:
        return ""
    return a[m.a:m.a + m.size]


@spec("TierGroup.make_name", "PointsGroup.make_name", props="C22")
def make_name(self):
    guess = reduce(self.get_longest_name_string, [x.name for x in self.tier_list])
    guess = re.sub("^[\\s_-]+|[\\s_-]+$", "", guess)
    guess = re.sub("\\W", "_", guess)
    if len(guess) > 1:
        return guess
    try:
        return f"group_{self.within.index(self)}"
    except Exception:
        return None
