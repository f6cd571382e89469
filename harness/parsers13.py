from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser, MetadataProperty
from typing import Any
import json


def text(x):
    return str(json.loads(x)["i"])


class ParserA(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [
            MetadataProperty(name="language", dtype="STRING", multiple=True, nullable=True),
            MetadataProperty(name="license", dtype="STRING", multiple=False, nullable=True),
        ]

    def parse(self, line_number: int, payload: Any, **kwargs: Any) -> None:
        self.add_metadata(sample_id=line_number, language=payload["m"].get("language"), license=payload["m"].get("license"))


class ParserB(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty(name="license", dtype="STRING", multiple=False, nullable=True),
                MetadataProperty(name="language", dtype="STRING", multiple=True, nullable=True)]

    def parse(self, line_number: int, payload: Any, **kwargs: Any) -> None:
        self.add_metadata(sample_id=line_number, language=payload["m"].get("language"), license="B")
