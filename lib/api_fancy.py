"""P25 (see api_index.py)."""
from api_index import RULE, cases, groups25 as groups
