"""C11: undefined, unused and redundant constructs and builtin hints are reported exactly."""
from common import *
import c10

if __name__ == "__main__":
    main(lambda c: c10.run(c, judge=c10.reports), "C11")
