"""The library under test, as used by the checks: public classes and the
functions that the library's own tests and documentation use."""
import logging

from . import env

env.setup()

from dataladmetadatamodel.common import (  # noqa: E402
    get_top_level_metadata_objects,
    get_top_nodes_and_metadata_root_record,
)
from dataladmetadatamodel.datasettree import DatasetTree  # noqa: E402
from dataladmetadatamodel.filetree import FileTree  # noqa: E402
from dataladmetadatamodel.mapper.gitmapper.objectreference import (  # noqa: E402
    flush_object_references,
)
from dataladmetadatamodel.mapper.gitmapper.utils import (  # noqa: E402
    locked_backend,
)
from dataladmetadatamodel.mapper.reference import Reference  # noqa: E402
from dataladmetadatamodel.metadata import (  # noqa: E402
    ExtractorConfiguration,
    Metadata,
    MetadataInstance,
    MetadataInstanceSet,
)
from dataladmetadatamodel.metadatapath import MetadataPath  # noqa: E402
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord  # noqa: E402
from dataladmetadatamodel.metadatasource import (  # noqa: E402
    ImmediateMetadataSource,
    LocalGitMetadataSource,
    MetadataSource,
)
from dataladmetadatamodel.mtreenode import MTreeNode  # noqa: E402
from dataladmetadatamodel.text import Text  # noqa: E402
from dataladmetadatamodel.uuidset import UUIDSet  # noqa: E402
from dataladmetadatamodel.versionlist import (  # noqa: E402
    TreeVersionList,
    VersionList,
    VersionRecord,
)

logging.disable(logging.CRITICAL)

P = MetadataPath

REF_TVL = "refs/datalad/dataset-tree-version-list"
REF_UUID = "refs/datalad/dataset-uuid-set"
REF_OBJECTS = "refs/datalad/object-references-2.0"
REF_LEGACY_TREES = "refs/datalad/object-references/trees"
REF_LEGACY_BLOBS = "refs/datalad/object-references/blobs"
