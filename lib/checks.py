"""One function per property: what is model checked, generated, driven and validated."""
import checks_codes
import checks_chan
import checks_info
import checks_param
import checks_eff
import checks_dev

CHECKS = {}
ASSUMPTIONS = {}
for m in (checks_codes, checks_chan, checks_info, checks_param, checks_eff, checks_dev):
    CHECKS.update(m.CHECKS)
    ASSUMPTIONS.update(m.ASSUMPTIONS)
