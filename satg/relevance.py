"""Which differences count for which property.

A contract names the properties it serves directly (specs/, props=): every difference from it counts for them.
Beyond that a property is concerned by
  CATS   a difference of this kind in any contract (the chain links are C01's subject wherever they are written), and
  USES   any difference in the contracts of functions its own mechanism is built from.
"""
import re

CATS = {
    "C01": {"prec"}, "C02": {"hier"}, "C07": {"tier"}, "C08": {"within"}, "C10": {"export"}, "C21": {"polar"}, "C22": {"name"},
    "C04": {"key:write:superset_class", "key:write:subset_class", "key:cls.set_superset_class", "key:cls.set_subset_class"},
    "C05": {"key:write:superset_class", "key:write:subset_class", "key:cls.set_superset_class", "key:cls.set_subset_class",
            "key:grid._reclone_classes", "key:write:_cloned_classes"},
    "C09": {"key:seq._shift", "key:group.shift", "key:grid.shift"},
}

USES = {
    "C09": r"Sequence(Interval|Point)\.(start|end|time):(get|set)|(TierGroup|PointsGroup|AlignedTextGrid)\.(__getitem__|__len__)|SequenceList\.(__getitem__|__len__|ends:get)|SequenceInterval\.subset_list:get",
    "C02": r"SequenceTier\.(__init__|sequence_list:set|concat)|AlignedTextGrid\.interleave_class|(TierGroup)\.(append|concat|__add__)",
    "C21": r"SequencePoint\.(get_interval_at_point|get_interval_index_at_time)|SequenceTier\.get_interval_at_time|SequencePointTier\.(times|sequence_list):get",
    "C08": r".*\.(tier_index:get|get_tierwise)|Sequence(Point)?Tier\.(pop|append|__init__|__getitem__|__len__|sequence_list:get)|(TierGroup|PointsGroup|AlignedTextGrid)\.(__getitem__|__len__|append)|SequenceInterval\.(pop|index|subset_list:get|__getitem__|subset_list:set)",
    "C07": r"SequenceTier\.cleanup|SequenceList\.(append|remove|pop)|SequenceInterval\.(cleanup|fuse_leftwards|fuse_rightwards)|TierGroup\.(__init__|_project_up)|AlignedTextGrid\.cleanup",
    "C06": r"Sequence(Point)?Tier\.(__init__|append|concat|pop)|SequenceList\.labels:get|SequenceInterval\.(set_subset_list|subset_list:set|append_subset_list)",
    "C05": r"AlignedTextGrid\.(_process_textgrid_arg|_extend_classes|pop_class)|func:custom_classes\.custom_classes",
    "C10": r"(Sequence(Point)?Tier|TierGroup|PointsGroup|AlignedTextGrid)\.(xmin|xmax):get|SequenceList\.(starts|ends|labels):get"
           r"|Sequence(Interval|Point)\.(start|end|time):get|Sequence(Point)?Tier\.sequence_list:get|(TierGroup|PointsGroup|AlignedTextGrid)\.(__getitem__|__len__)|AlignedTextGrid\.tier_groups:get",
    "C11": r"SequenceList\.(__init__|append|_sort)|AlignedTextGrid\.(_reclone_classes|_set_group_names|tier_groups:set)|func:custom_classes\.clone_class"
           r"|Sequence(Interval|Point)\.(start|end|time):set|Sequence(Point)?Tier\.sequence_list:set",
    "C12": r"SequenceList\.(__getitem__|_sort|__init__|append)|Sequence(Point)?Tier\.(sequence_list:(get|set)|__getitem__)|PointsGroup\.__getitem__"
           r"|Sequence(Interval|Point)\.(start|end|time):get",
    "C13": r"Sequence(Interval|Point)\.(id:get|tier_index:get|within_index:get|start:get|end:get|time:get|contains:get|subset_list:get|__getitem__|__len__|within:get)"
           r"|Sequence(Point)?Tier\.(__getitem__|__len__|id:get|within_index:get|sequence_list:get)|(TierGroup|PointsGroup)\.(name:get|__getitem__|__len__|id:get|within_index:get)"
           r"|AlignedTextGrid\.(__getitem__|__len__)",
    "C15": r"(TierGroup|PointsGroup)\.(__init__|__add__)|SequenceInterval\.(__init__|subset_list:set)|SequenceList\.(__init__|__add__)|Sequence(Point)?Tier\.(__add__|__init__)"
           r"|AlignedTextGrid\.(append|_reclone_classes|tier_groups:set)|AlignedTextGrid\.__init__"
           r"|SequenceInterval\.set_subset_list|func:custom_classes\..*",
    "C16": r".*\.(tier_index|within_index|id|first|last|phones|phone_list|inword|name):get"
           r"|.*\.(subset_list|sequence_list|tier_groups|starts|ends|times|entry_class):get",
    "C17": r"TierGroup\.__init__|SequenceTier\.(append|xmin:get|xmax:get|sequence_list:set)|SequenceInterval\.(append|set_subset_list|append_subset_list|subset_list:set)"
           r"|SequenceList\.append|(TierGroup|AlignedTextGrid)\.(xmin|xmax):get"
           r"|SequenceTier\.(starts|ends|times):get|SequenceTier\.get_interval_at_time|SequenceInterval\.(duration:get|__init__|remove_superset)|TierGroup\.re_relate|SequenceList\.(__add__|_sort|starts:get|ends:get)",
    "C18": r"SequenceInterval\.(append_subset_list|set_subset_list|remove_from_subset_list|remove_superset|pop|set_fol|set_prev|set_final|set_initial)"
           r"|SequenceList\.__add__|SequenceInterval\.(subset_list:set|start:set|end:set)",
    "C19": r"(TierGroup|PointsGroup)\.re_relate|SequenceList\.__init__|Sequence(Interval|Point)\.(start|end|time):set"
           r"|AlignedTextGrid\.(append|_swap_classes)|SequenceList\.append|func:custom_classes\.clone_class",
    "C20": r"Sequence(Point)?Tier\.(first|last):get|.*\.tier_index:get|AlignedTextGrid\._set_group_names|SequenceList\.(pop|remove)"
           r"|(TierGroup|PointsGroup)\.__init__|AlignedTextGrid\.__init__|PolarGrid\._set_named_accessors|Sequence(Point)?Tier\.sequence_list:get|SequenceList\.append",
    "C22": r"AlignedTextGrid\.(interleave_class|_relate_tiers)|Word\..*|Phone\..*",
    "C23": r"SequenceInterval\.(sub_starts|sub_ends|start|end|subset_list):get|SequenceList\.(starts|ends):get",
    "C24": r"AlignedTextGrid\.(append|_reclone_classes|_swap_classes|get_class_by_name|_set_group_names|tier_groups:set|shift)|TierGroup\.(__init__|_arrange_tiers|append)"
           r"|SequenceTier\.__init__|SequenceInterval\.(__init__|_cast|set_superset_class|set_subset_class)|func:custom_classes\.clone_class"
           r"|func:custom_classes\.custom_classes|SequenceInterval\.(subset_list:set|set_subset_list)",
    "C25": r"SequenceList\.(__init__|_sort|_shift)|Sequence(Point)?Tier\._shift|(TierGroup|PointsGroup)\.(shift|__init__)|AlignedTextGrid\.shift"
           r"|SequenceList\.__contains__|Sequence(Interval|Point)\._shift|TierGroup\._arrange_tiers|SequenceInterval\.append_subset_list",
}
_C = {k: re.compile(f"(?:{v})\\Z") for k, v in USES.items()}


def used(prop, target):
    return prop in _C and _C[prop].match(target) is not None


def concerns(prop, r, d):
    """does difference d of result r count for the property?"""
    if prop in r.contract.props or used(prop, r.target):
        return True
    c = CATS.get(prop, ())
    return d.cat in c or f"key:{d.key}" in c
