"""Activities of the simulator: they use the library's extension point."""

from datetime import timedelta

from auxi.modelling.business.structure import Activity


class ScriptActivity(Activity):
    """Posts what its script says: [period, offset s, debit, credit, amount];
    without an offset the date has no time.
    """

    def __init__(self, name, posts):
        super(ScriptActivity, self).__init__(name)
        self.posts = posts

    def run(self, clock, generalLedger):
        ix = clock.timestep_ix
        for p_ix, off, dt, cr, amount in self.posts:
            if p_ix == ix:
                when = clock.get_datetime()
                generalLedger.create_transaction(
                    "post", tx_date=when.date() if off is None else
                    when + timedelta(seconds=off),
                    dt_account=dt, cr_account=cr, source=self.path,
                    amount=amount)

    def get_referenced_accounts(self):
        return sorted({p[2] for p in self.posts} | {p[3] for p in self.posts})


ARMED = {}


class FailingActivity(Activity):
    """Fails with an ordinary exception in a period of the runs for which it
    is armed."""

    def __init__(self, name):
        super(FailingActivity, self).__init__(name)

    def run(self, clock, generalLedger):
        if ARMED.get("at") == clock.timestep_ix and \
                ARMED.get("name") == self.name:
            from sim.core import Injected
            ARMED["fired"] = True
            raise Injected("activity failed")
