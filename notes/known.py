[
 ("N01", "boolean-array-element", "true and false have no type in the database; the parser drops them: [true] is stored as an empty array, without an error"),
 ("N01", "boolean-object-member", "the same for object members: {\"a\":false} is stored as an empty object"),
 ("N01", "boolean-top-level", "the text true is not an array or object and should be refused, but parsing it returns success and stores nothing"),
 ("A02", "document-deletion", "wg_delete_document of [[2,[3]]] with hash indexes on column 1 and on columns 0 and 1 and no room for another list cell: links are replaced by NULL one at a time, which needs an index entry for NULL; it fails halfway and leaves the document deleted in part"),
]
