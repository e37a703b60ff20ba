"""What each check builds, and what it says about itself in its evidence."""
from props import PROPS

CHECKS = {p['id']: p['spec'] for p in PROPS}
