#include <pcl/point_cloud.h>
#ifndef VERIF_VOXEL_GRID_
#define VERIF_VOXEL_GRID_
namespace pcl {
template<typename T> class VoxelGrid
{
public:
  VoxelGrid();
  void setLeafSize(float x, float y, float z);
  void setInputCloud(const typename pcl::PointCloud<T>::ConstPtr & cloud);
  void filter(pcl::PointCloud<T> & out);
};
}
#endif
