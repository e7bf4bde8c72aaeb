"""Sample types which dataset configurations refer to by name."""

import dataclasses
from typing import Any, Optional

from vlib import import_energon

energon = import_energon()


@dataclasses.dataclass
class FieldSample(energon.Sample):
    a: Any
    b: Any
    c: Any = None
    d: Optional[list] = dataclasses.field(default_factory=lambda: ["default"])
