"""Classes standing for objects of torch, given to the interpreter only."""


class Optimizer(object):
    pass


class Loader(object):
    pass


class Scheduler(object):
    pass
