// Contract of backend.CopyResult used by its callers (its own behaviour is property P06):
// a delivery of src to dst is recorded, and the error reported is a function of the two.
load backend = "github.com/blueprint-uservices/blueprint/runtime/core/backend"
ghost delivered gmap[any]any
ufun copyErr(src any; dst any) any
extern backend.CopyResult(src, dst) (err)
  modifies delivered
  ensures delivered == old(delivered)[dst := src]
  ensures err == copyErr(src, dst)
  why the copy itself is checked by property P06
