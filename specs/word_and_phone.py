"""Contracts of the Word and Phone conveniences."""


@spec("Phone.__init__", "Word.__init__", props="C19 C11")
def init(self, interval: "SequenceInterval" = (None, None, None), *, Interval: "SequenceInterval?" = None):
    super().__init__(interval, Interval=Interval)


@spec("Phone.set_word", props="C22 C02", opts="noret")
def set_word(self, word: "Word"):
    self.set_super_instance(word)


@spec("Phone.inword:get", props="C22 C02")
def inword(self):
    return self.super_instance


@spec("Word.set_phones", props="C22 C02", opts="noret")
def set_phones(self, phone_list: "list:Phone"):
    self.set_subset_list(phone_list)


@spec("Word.phone_list:get", props="C22 C02")
def phone_list(self):
    return self._subset_list


@spec("Word.phones:get", props="C22 C16")
def phones(self):
    return self._subset_list.labels
