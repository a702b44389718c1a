id="P27-stale-potential"; prop="P27"; file="src/utils/irrotational_projector.cpp"
edits=[("""   else if (wrt == "mesh_coords")
   {
      if (dirty)
      {
         update();
         dirty = false;
      }
      // Compute""","""   else if (wrt == "mesh_coords")
   {
      // Compute""")]
odl=True
needs="the mesh moves, and the mesh sensitivity is asked for before the projection or its state sensitivity is evaluated"
breaks="The mesh sensitivity of the projection is taken with the operators of the mesh before it moved."
srcs=["utils/irrotational_projector.cpp","physics/mfem_common_integ.cpp","physics/miso_input.cpp","utils/utils.cpp","common/coefficient.cpp","physics/electromagnetics/electromag_integ.cpp"]
demo=r'''
#include "mfem.hpp"
#include "irrotational_projector.hpp"
#include "miso_input.hpp"
#include <iostream>
using namespace mfem;
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   bool ok;
   {
      Mesh sm = Mesh::MakeCartesian2D(3, 3, Element::QUADRILATERAL);
      ParMesh mesh(MPI_COMM_WORLD, sm);
      mesh.EnsureNodes();
      ND_FECollection ndc(1, 2);
      H1_FECollection h1c(1, 2);
      ParFiniteElementSpace nd(&mesh, &ndc), h1(&mesh, &h1c);
      auto &nodes = dynamic_cast<ParGridFunction &>(*mesh.GetNodes());
      ParGridFunction x(&nd), bar(&nd);
      for (int i = 0; i < x.Size(); ++i) { x(i) = std::sin(3.0 * i + 1); bar(i) = std::cos(2.0 * i); }
      miso::IrrotationalProjector op(h1, nd, 2);
      Vector y(nd.GetVSize());
      op.Mult(x, y);
      for (int i = 0; i < nodes.Size(); ++i) { nodes(i) += 0.05 * std::sin(5.0 * i); }
      miso::MISOInputs in{{"mesh_coords", nodes}};
      setInputs(op, in);
      Vector a(nodes.Size()), b(nodes.Size());
      a = 0.0; b = 0.0;
      op.vectorJacobianProduct(x, bar, "mesh_coords", a);
      op.Mult(x, y);
      miso::IrrotationalProjector fresh(h1, nd, 2);
      fresh.Mult(x, y);
      fresh.vectorJacobianProduct(x, bar, "mesh_coords", b);
      a -= b;
      std::cout << "difference " << a.Normlinf() << " of " << b.Normlinf() << "\n";
      ok = a.Normlinf() < 1e-8 * (1 + b.Normlinf());
   }
   MPI_Finalize();
   return !ok;
}
'''
