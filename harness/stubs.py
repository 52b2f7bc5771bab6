"""Statistics and methods with known behaviour, built on the library's own base classes."""

from pysatl_criterion import DistributionType
from pysatl_criterion.hypothesis_testing.limit_distribution.base import AbstractLimitDistributionResolver
from pysatl_criterion.statistics.alternative import (
    LeftAlternative,
    RightAlternative,
    TwoSidedAlternative,
)
from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis
from pysatl_criterion.statistics.statistic import AbstractGoodnessOfFitStatistic

ALT = {"left": LeftAlternative, "right": RightAlternative, "two_tailed": TwoSidedAlternative}


def make_stat(alt, fn=None, dist=DistributionType.NORMAL, params=None, code="STUB"):
    """A statistic with the given alternative, null and evaluation; it logs the samples it sees."""

    class Stub(AbstractGoodnessOfFitStatistic):
        seen = []

        def alternative(self):
            return ALT[alt]()

        def hypothesis(self):
            return GoodnessOfFitHypothesis(params)

        @staticmethod
        def distribution():
            return dist

        @staticmethod
        def code():
            return code

        @staticmethod
        def short_code():
            return code

        def execute_statistic(self, rvs):
            Stub.seen.append(rvs)
            return fn(rvs) if fn else 0.0

    return Stub()


class FixedResolver(AbstractLimitDistributionResolver):
    def __init__(self, lim):
        self.lim = lim
        self.asked = []

    def resolve(self, statistic, sample_size):
        self.asked.append((statistic, sample_size))
        return self.lim
