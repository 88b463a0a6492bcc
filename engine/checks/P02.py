"""Path-sensitive dataflow over the parser's services, compared with the
abstract data types they implement."""
import services


def check(ctx):
    services.verify(ctx)
