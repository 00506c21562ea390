/// Documents that each depend on one cleaning option.
pub const OPTDOCS: &[(&str, &str)] = &[
    ("apply-transform-to-gradients", include_str!("../optdocs/apply-transform-to-gradients.svg")),
    ("apply-transform-to-paths", include_str!("../optdocs/apply-transform-to-paths.svg")),
    ("apply-transform-to-shapes", include_str!("../optdocs/apply-transform-to-shapes.svg")),
    ("convert-segments", include_str!("../optdocs/convert-segments.svg")),
    ("convert-shapes", include_str!("../optdocs/convert-shapes.svg")),
    ("coordinates-precision", include_str!("../optdocs/coordinates-precision.svg")),
    ("group-by-style", include_str!("../optdocs/group-by-style.svg")),
    ("indent", include_str!("../optdocs/indent.svg")),
    ("join-arcto-flags", include_str!("../optdocs/join-arcto-flags.svg")),
    ("join-style-attributes", include_str!("../optdocs/join-style-attributes.svg")),
    ("list-separator", include_str!("../optdocs/list-separator.svg")),
    ("merge-gradients", include_str!("../optdocs/merge-gradients.svg")),
    ("paths-coordinates-precision", include_str!("../optdocs/paths-coordinates-precision.svg")),
    ("paths-to-relative", include_str!("../optdocs/paths-to-relative.svg")),
    ("properties-precision", include_str!("../optdocs/properties-precision.svg")),
    ("regroup-gradient-stops", include_str!("../optdocs/regroup-gradient-stops.svg")),
    ("remove-comments", include_str!("../optdocs/remove-comments.svg")),
    ("remove-declarations", include_str!("../optdocs/remove-declarations.svg")),
    ("remove-default-attributes", include_str!("../optdocs/remove-default-attributes.svg")),
    ("remove-desc", include_str!("../optdocs/remove-desc.svg")),
    ("remove-dupl-cmd-in-paths", include_str!("../optdocs/remove-dupl-cmd-in-paths.svg")),
    ("remove-dupl-fegaussianblur", include_str!("../optdocs/remove-dupl-fegaussianblur.svg")),
    ("remove-dupl-lineargradient", include_str!("../optdocs/remove-dupl-lineargradient.svg")),
    ("remove-dupl-radialgradient", include_str!("../optdocs/remove-dupl-radialgradient.svg")),
    ("remove-gradient-attributes", include_str!("../optdocs/remove-gradient-attributes.svg")),
    ("remove-invalid-stops", include_str!("../optdocs/remove-invalid-stops.svg")),
    ("remove-invisible-elements", include_str!("../optdocs/remove-invisible-elements.svg")),
    ("remove-metadata", include_str!("../optdocs/remove-metadata.svg")),
    ("remove-needless-attributes", include_str!("../optdocs/remove-needless-attributes.svg")),
    ("remove-nonsvg-attributes", include_str!("../optdocs/remove-nonsvg-attributes.svg")),
    ("remove-nonsvg-elements", include_str!("../optdocs/remove-nonsvg-elements.svg")),
    ("remove-text-attributes", include_str!("../optdocs/remove-text-attributes.svg")),
    ("remove-title", include_str!("../optdocs/remove-title.svg")),
    ("remove-unreferenced-ids", include_str!("../optdocs/remove-unreferenced-ids.svg")),
    ("remove-unresolved-classes", include_str!("../optdocs/remove-unresolved-classes.svg")),
    ("remove-unused-coordinates", include_str!("../optdocs/remove-unused-coordinates.svg")),
    ("remove-unused-defs", include_str!("../optdocs/remove-unused-defs.svg")),
    ("remove-unused-segments", include_str!("../optdocs/remove-unused-segments.svg")),
    ("remove-version", include_str!("../optdocs/remove-version.svg")),
    ("remove-xmlns-xlink-attribute", include_str!("../optdocs/remove-xmlns-xlink-attribute.svg")),
    ("resolve-use", include_str!("../optdocs/resolve-use.svg")),
    ("simplify-transforms", include_str!("../optdocs/simplify-transforms.svg")),
    ("transforms-precision", include_str!("../optdocs/transforms-precision.svg")),
    ("trim-colors", include_str!("../optdocs/trim-colors.svg")),
    ("trim-ids", include_str!("../optdocs/trim-ids.svg")),
    ("trim-paths", include_str!("../optdocs/trim-paths.svg")),
    ("ungroup-defs", include_str!("../optdocs/ungroup-defs.svg")),
    ("ungroup-groups", include_str!("../optdocs/ungroup-groups.svg")),
    ("use-implicit-cmds", include_str!("../optdocs/use-implicit-cmds.svg")),
];
