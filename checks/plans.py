"""Which models, generators and replays decide which property."""
from . import plan_cipher, plan_aead, plan_digest, plan_mac, plan_key, plan_enc, plan_life, plan_tool, plan_prov, plan_app, plan_memory, plan_faults

PLANS = {}
for m in (plan_cipher, plan_aead, plan_digest, plan_mac, plan_key, plan_enc, plan_life, plan_tool, plan_prov, plan_app, plan_memory, plan_faults):
    PLANS.update(m.PLANS)
